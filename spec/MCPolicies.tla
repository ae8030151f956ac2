------------------------------ MODULE MCPolicies ------------------------------
(***************************************************************************)
(* Meshline policies of one axis taken through merging, intervals and lines  *)
(* (C11, C12, C13): every choice of at most NPol policies of any kind on a    *)
(* small grid, every proximity limit, every order of the merges.             *)
(*                                                                          *)
(* Merging is a machine of its own here: as long as two policies are too     *)
(* close, one of the closest pairs is merged.  What it ends with has to be    *)
(* accepted by the relation of Meshing, whichever the order, and changes of   *)
(* it have to be rejected.  Then intervals and lines are constructed, and     *)
(* laws are checked on what comes out.                                       *)
(***************************************************************************)
EXTENDS Meshing, TLC
CONSTANTS NPol, K, Limits, Dmaxs, Lmins
G == 9216   \* a step of the grid: halves well
VARIABLES phase, par, s, u, src
vars == <<phase, par, s, u, src>>
\* s: the state before the merges; u: the state under way; src[i]: the policies of s which ended up in policy i

Kinds == {<<"ONELINE", "NONE">>, <<"HALFS", "NONE">>, <<"THIRDS", "MIN">>, <<"THIRDS", "MAX">>}
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Only(x) == [ax \in Axs |-> IF ax = 1 THEN x ELSE <<>>]
Empty == [x |-> TRUE, po |-> Only(<<>>), tc |-> Only(<<>>), iv |-> Only(<<>>), li |-> Only(<<>>), mg |-> [ax \in Axs |-> 999], pm |-> Only(<<>>)]
B == [par |-> par]
P == u.po[1]
On == Enabled(P)
D(a, c) == Abs(P[a][3] - P[c][3])

Init == /\ phase = "choose" /\ s = Empty /\ u = Empty /\ src = <<>>
        /\ par \in [prox : {G * l : l \in Limits}, dmax : {G * d : d \in Dmaxs}, lmin : Lmins, sm : {1500000}]
\* policies are listed in no particular order: sequences, not sets
Choose == /\ phase = "choose" /\ Len(P) < NPol
          /\ \E k \in Kinds, c \in 0 .. K, on \in BOOLEAN :
               /\ (~ on => k = <<"HALFS", "NONE">> /\ c = 0)   \* (one that is disabled stands for all of them)
               /\ u' = [u EXCEPT !.po[1] = Append(@, <<k[1], k[2], G * c, on, par.dmax, <<"E", 3, Len(@) + 1>>, 1>>)]
          /\ src' = Append(src, {Len(P) + 1}) /\ UNCHANGED <<phase, par, s>>
Start == phase = "choose" /\ phase' = "merge" /\ s' = u /\ UNCHANGED <<par, u, src>>
Close == {<<a, c>> \in On \X On : a < c /\ D(a, c) <= par.prox}
Merge == /\ phase = "merge"
         /\ \E x \in Close :
              /\ \A y \in Close : D(x[1], x[2]) <= D(y[1], y[2])
              /\ LET a == x[1]  c == x[2]  n == Len(P) + 1  k == Len(u.tc[1]) + 1
                     m == IF P[a][1] = "ONELINE" /\ P[c][1] # "ONELINE" THEN <<"ONELINE", "NONE", P[a][3]>>
                          ELSE IF P[c][1] = "ONELINE" /\ P[a][1] # "ONELINE" THEN <<"ONELINE", "NONE", P[c][3]>>
                          ELSE IF P[a][1] = P[c][1] /\ P[a][2] = P[c][2] THEN <<P[a][1], P[a][2], (P[a][3] + P[c][3]) \div 2>>
                          ELSE <<"HALFS", "NONE", (P[a][3] + P[c][3]) \div 2>>
                 IN /\ u' = [u EXCEPT !.po[1] = Append([@ EXCEPT ![a][4] = FALSE, ![c][4] = FALSE],
                                                       <<m[1], m[2], m[3], TRUE, par.dmax, <<"T", 1, k>>, 1>>),
                                      !.tc[1] = Append(@, <<a, c, n, TRUE>>)]
                    /\ src' = Append(src, src[a] \cup src[c])
         /\ UNCHANGED <<phase, par, s>>
Merged1 == phase = "merge" /\ Close = {} /\ phase' = "merged" /\ UNCHANGED <<par, s, u, src>>
\* intervals between the places of the policies in force
Places == {P[i][3] : i \in On}
NextPlace(c) == CHOOSE d \in Places : d > c /\ \A e \in Places : e > c => d <= e
At(c) == CHOOSE i \in On : P[i][3] = c
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o Sorted(S \ {m})
IntervalsOf ==
  LET c == Sorted(Places)
      I == [k \in 1 .. (IF Len(c) = 0 THEN 0 ELSE Len(c) - 1) |->
              <<At(c[k]), At(c[k + 1]), c[k + 1] - c[k], c[k] + c[k + 1], par.dmax, <<par.lmin, par.lmin>>, <<par.sm, par.sm>>, <<>>, 1>>]
  IN [u EXCEPT !.iv[1] = I,
               !.po[1] = [i \in DOMAIN P |-> LET H == {I[k][3] : k \in {j \in DOMAIN I : i \in {I[j][1], I[j][2]}}} IN
                            IF H = {} THEN P[i] ELSE [P[i] EXCEPT ![5] = Min2(@, MinOf(H) \div 2)]]]
Intervals == phase = "merged" /\ phase' = "intervals" /\ u' = TLCEval(IntervalsOf) /\ s' = u /\ UNCHANGED <<par, src>>
\* a mesh: gaps as even as can be, more of them than needed
Ceil(a, b) == (a + b - 1) \div b
First(p, up) == CASE p[1] = "ONELINE" -> 0 [] p[1] = "HALFS" -> p[5] \div 2
                  [] OTHER -> IF (p[2] = "MAX") = up THEN (2 * p[5]) \div 3 ELSE p[5] \div 3
\* distances of the lines of a half from its policy, the middle one last
Side(p, half, up, more) ==
  LET f == First(p, up)  h == half - f  n == Max2(Max2(par.lmin, 1), Ceil(h, p[5])) + more
      all == [k \in 0 .. n |-> f + (k * h) \div n]
  IN [k \in 1 .. (IF p[1] = "ONELINE" THEN n ELSE n + 1) |-> IF p[1] = "ONELINE" THEN all[k] ELSE all[k - 1]]
LinesOf(i, more) ==
  LET I == u.iv[1][i]  p == P[I[1]]  q == P[I[2]]  half == I[3] \div 2
      A == Side(p, half, TRUE, more)  Z == Side(q, half, FALSE, more)
  IN [k \in 1 .. Len(A) |-> <<p[3] + A[k], i, IF k = Len(A) THEN 0 ELSE I[1]>>]
     \o [k \in 1 .. Len(Z) - 1 |-> <<q[3] - Z[Len(Z) - k], i, I[2]>>]
OneAt(c) == LET X == {i \in On : P[i][3] = c /\ P[i][1] = "ONELINE"} IN IF X = {} THEN <<>> ELSE << <<c, 0, CHOOSE i \in X : TRUE>> >>
RECURSIVE AllLines(_, _, _)
AllLines(c, k, more) == IF k > Len(c) THEN <<>>
                        ELSE OneAt(c[k]) \o (IF k < Len(c) THEN LinesOf(k, more) ELSE <<>>) \o AllLines(c, k + 1, more)
MeshOf(more) == LET E == SelectSeq(P, LAMBDA p : p[4]) IN
  [u EXCEPT !.li[1] = AllLines(Sorted(Places), 1, more), !.pm[1] = [k \in DOMAIN E |-> E[k][3]]]
Mesh == phase = "intervals" /\ phase' = "mesh" /\ (\E more \in 0 .. 1 : u' = TLCEval(MeshOf(more))) /\ s' = u /\ UNCHANGED <<par, src>>
Next == Choose \/ Start \/ Merge \/ Merged1 \/ Intervals \/ Mesh
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Checks                                                                    *)
(***************************************************************************)
C11_Accepted == phase = "merged" => MergeClose(B, s, u)
C12_Accepted == phase = "intervals" => MakeIntervals(B, s, u)
C13_Accepted == phase = "mesh" => MakeMesh(B, s, u)
\* what is not finished, was merged too much, or ended up elsewhere or as something else is rejected
Drop(t) == SubSeq(t, 1, Len(t) - 1)
C11_Tight ==
  /\ (phase = "merge" /\ Close # {}) => ~ MergeClose(B, s, u)
  /\ phase = "merged" =>
       /\ u.tc[1] # <<>> =>
            LET n == Len(P)  k == Len(u.tc[1]) IN
            /\ ~ MergeClose(B, s, [u EXCEPT !.po[1][n][3] = @ + 1])
            /\ ~ MergeClose(B, s, [u EXCEPT !.po[1][n][1] = IF @ = "ONELINE" THEN "HALFS" ELSE "ONELINE"])
            /\ ~ MergeClose(B, s, [u EXCEPT !.po[1][n][4] = FALSE])
            /\ ~ MergeClose(B, s, [u EXCEPT !.po[1][u.tc[1][k][1]][4] = TRUE])
            /\ ~ MergeClose(B, s, [u EXCEPT !.tc[1] = Drop(@)])
       /\ \A a, c \in On : (a < c) => \* one merge more than needed
            ~ MergeClose(B, s, [u EXCEPT !.po[1] = Append([@ EXCEPT ![a][4] = FALSE, ![c][4] = FALSE],
                                  <<Merged(P[a], P[c])[1], Merged(P[a], P[c])[2], Merged(P[a], P[c])[3] \div 2, TRUE, par.dmax, <<"T", 1, Len(u.tc[1]) + 1>>, 1>>),
                                !.tc[1] = Append(@, <<a, c, Len(P) + 1, TRUE>>)])
C12_Tight == (phase = "intervals" /\ u.iv[1] # <<>>) =>
  /\ ~ MakeIntervals(B, s, [u EXCEPT !.iv[1] = Drop(@)])
  /\ ~ MakeIntervals(B, s, [u EXCEPT !.iv[1][1][3] = @ + 2])
  /\ ~ MakeIntervals(B, s, [u EXCEPT !.iv[1][1][1] = u.iv[1][1][2]])
  /\ \A i \in On : ~ MakeIntervals(B, s, [u EXCEPT !.po[1][i][5] = @ + 2])
  /\ Len(u.iv[1]) > 1 => ~ MakeIntervals(B, s, [u EXCEPT !.iv[1] = Tail(@)])
Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
C13_Tight == phase = "mesh" => \A k \in DOMAIN u.li[1] :
  \* a line of one policy or the middle of an interval that is missing, a line out of place
  /\ u.li[1][k][2] = 0 \/ u.li[1][k][3] = 0 => ~ MakeMesh(B, s, [u EXCEPT !.li[1] = Without(@, k)])
  /\ ~ MakeMesh(B, s, [u EXCEPT !.li[1][k][1] = @ + 2 * par.dmax])
  /\ (u.li[1][k][2] # 0 /\ u.li[1][k][3] # 0) => ~ MakeMesh(B, s, [u EXCEPT !.li[1][k][3] = 0])

Ended == phase \in {"merged", "intervals", "mesh"}
NEnds == Cardinality({i \in DOMAIN src : Cardinality(src[i]) = 1})
\* C11: far enough from each other, nothing lost, nothing moved further than the merges it went through explain
C11_Apart == Ended => \A a, c \in On : a # c => D(a, c) > par.prox
C11_Kept == Ended => \A i \in 1 .. NEnds : (P[i][6][1] = "E" /\ (P[i][4] \/ \E k \in DOMAIN u.tc[1] : i \in {u.tc[1][k][1], u.tc[1][k][2]})) =>
              \E r \in On : i \in src[r] /\ Abs(P[r][3] - P[i][3]) <= (Cardinality(src[r]) - 1) * par.prox
C11_Within == Ended => \A r \in On : LET C == {P[i][3] : i \in src[r]} IN MinOf(C) <= P[r][3] /\ P[r][3] <= MaxOf(C)
\* a single line wanted at a place stays exactly there, unless another one is too close to it
C11_Line == Ended => \A r \in On : LET L == {i \in src[r] : P[i][1] = "ONELINE"} IN
              /\ (L # {}) = (P[r][1] = "ONELINE")
              /\ Cardinality(L) = 1 => \A i \in L : P[r][3] = P[i][3]
              /\ L # {} => LET C == {P[i][3] : i \in L} IN MinOf(C) <= P[r][3] /\ P[r][3] <= MaxOf(C)
\* edges all facing the same way still do once merged
C11_Facing == Ended => \A r \in On : (\E k \in Kinds : \A i \in src[r] : <<P[i][1], P[i][2]>> = k) => \A i \in src[r] : P[r][1] = P[i][1] /\ P[r][2] = P[i][2]
\* merging always ends
C11_Ends == Len(u.tc[1]) < NPol
\* C12: intervals leave no hole and do not overlap
C12_Cover == phase \in {"intervals", "mesh"} => \A c \in Places : c < MaxOf(Places) =>
               Cardinality({k \in DOMAIN u.iv[1] : P[u.iv[1][k][1]][3] = c /\ P[u.iv[1][k][2]][3] = NextPlace(c)}) = 1
C12_Sum == (phase = "intervals" /\ Places # {}) =>
  LET RECURSIVE Sum(_)
      Sum(k) == IF k = 0 THEN 0 ELSE u.iv[1][k][3] + Sum(k - 1)
  IN Sum(Len(u.iv[1])) = MaxOf(Places) - MinOf(Places)
\* C13: nowhere between the first and the last policy are lines further from each other than allowed, no line is doubled
C13_Spacing == phase = "mesh" => \A k \in 2 .. Len(u.li[1]) : LET g == u.li[1][k][1] - u.li[1][k-1][1] IN 0 < g /\ g <= par.dmax + 4
\* C13: each side of a policy has its lines up to the middle, at least as many as asked
C13_Enough == phase = "mesh" => \A i \in DOMAIN u.iv[1] : Cardinality({k \in DOMAIN u.li[1] : u.li[1][k][2] = i}) >= 2 * par.lmin - 1
=============================================================================

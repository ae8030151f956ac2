--------------------------- MODULE DocumentTrace ---------------------------
(* Validates what the application read from generated documents against Document: one event is one document, the options   *)
(* it was read with and what the session held afterwards.                                                                  *)
EXTENDS Document, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IF "FOCUS" \in DOMAIN IOEnv THEN IOEnv.FOCUS ELSE "ALL"
F(c) == Focus \in {c, "ALL"}
ev == Trace[l]

\* the same closed line, wherever it starts and whichever way it is walked
SameRing(a, b) == LET n == Len(a) IN Len(b) = n /\ (n = 0 \/ \E s \in 0..(n - 1) : (\A i \in 0..(n - 1) : a[i + 1] = b[((i + s) % n) + 1]) \/ (\A i \in 0..(n - 1) : a[i + 1] = b[((s - i + n) % n) + 1]))
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Sq(x) == x * x
\* a regular polygon inscribed in the circle, reaching its four extremes; coordinates are rounded to integers
IsCircle(pts, c, r) ==
    LET n == Len(pts)  q(i) == pts[(i % n) + 1]  X(i) == q(i)[1] - c[1]  Y(i) == q(i)[2] - c[2]
        d2(i) == Sq(X(i) - X(i + 1)) + Sq(Y(i) - Y(i + 1))
    IN /\ n >= 8
       /\ \A i \in 0..(n - 1) : Abs(Sq(X(i)) + Sq(Y(i)) - Sq(r)) <= 2 * r + 4
       /\ {<<r, 0>>, <<0, r>>, <<0 - r, 0>>, <<0, 0 - r>>} \subseteq {<<X(i), Y(i)>> : i \in 0..(n - 1)}
       /\ \A i \in 0..(n - 1) : Abs(d2(i) - d2(0)) <= 4 * r + 8
       /\ \/ \A i \in 0..(n - 1) : X(i) * Y(i + 1) - X(i + 1) * Y(i) > 0
          \/ \A i \in 0..(n - 1) : X(i) * Y(i + 1) - X(i + 1) * Y(i) < 0
       /\ Cardinality({i \in 0..(n - 1) : Y(i) < 0 /\ Y(i + 1) >= 0}) = 1
SameShape(s, g) == /\ g.zx = TRUE /\ g.z = s.z
                   /\ IF s.sh = "ring" THEN g.ex = TRUE /\ SameRing(s.pts, g.pts) ELSE IsCircle(g.pts, s.c, s.r)
SamePoly(e, g) == g.name = e.name /\ g.mn = e.mn /\ g.mt = e.mt /\ g.pr = e.pr /\ SameShape(e.s, g)
SamePlanes(E, G) == \A p \in Planes : Len(G[p]) = Len(E[p]) /\ \A i \in 1..Len(E[p]) : SamePoly(E[p][i], G[p][i])
\* what is shown of a material on each polygon
SameMaterials(E, G) == \A p \in Planes : Len(G[p]) = Len(E[p]) /\ \A i \in 1..Len(E[p]) : /\ G[p][i].mt = E[p][i].mt /\ G[p][i].mn = E[p][i].mn
                                                                         /\ G[p][i].fc = E[p][i].fc /\ G[p][i].ec = E[p][i].ec
Fixed(G) == UNION {{<<a, G[a][i]>> : i \in 1..Len(G[a])} : a \in 1..3}
\* (a name may be empty: nothing to show of it)
Warned(W, m) == LET S == {i \in 1..Len(W) : W[i].m = m} IN
    IF S = {} THEN [t |-> {}, n |-> {}, c |-> 0] ELSE LET i == CHOOSE i \in S : TRUE IN [t |-> Elems(W[i].types), n |-> Elems(W[i].names) \ {""}, c |-> Cardinality(S)]
Expected(t, n) == [t |-> t, n |-> n \ {""}, c |-> IF t = {} THEN 0 ELSE 1]

Read(d, o, r) ==
    IF Refused(d, o) THEN r.ok = FALSE /\ r.why = TRUE
    ELSE LET I == Import(d, o) IN
         /\ r.ok = TRUE
         /\ F("C17") => SamePlanes(I.planes, r.planes) = TRUE
         /\ r.fx = TRUE /\ Fixed(r.fixed) = I.fixed
         /\ F("C17") => Warned(r.warn, "Unsupported CSXCAD Primitives:") = Expected(I.warn.gt, I.warn.gn)
         /\ F("C18") => /\ SameMaterials(I.planes, r.planes) = TRUE
                        /\ r.bg = I.bg /\ r.grid = I.grid
                        /\ Warned(r.warn, "Unsupported CSXCAD Properties:") = Expected(I.warn.pt, I.warn.pn)
         /\ (F("C18") \/ F("C22")) => \A k \in Params : r.params[k] = I.params[k]

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ \/ ev.op = "begin"
                \/ ev.op = "read" /\ Read(ev.d, ev.o, ev.r) = TRUE
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT("TRACE-RESULT matched=" \o ToString(TLCGet("stats").diameter - 1) \o " of=" \o ToString(Len(Trace)))
=============================================================================

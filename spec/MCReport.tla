------------------------------ MODULE MCReport ------------------------------
(* A model that grows part by part, and is changed: what its reports say is complete, refers to nothing that is not told,    *)
(* and tells every change.                                                                                                  *)
EXTENDS Report, SequencesExt
CONSTANTS MaxParts, MaxPolygons
VARIABLES m, n
vars == <<m, n>>
Empty == <<<<>>, <<>>, <<>>>>
Init == n = 0 /\ m = [polygons |-> Empty, eip |-> Empty, colinear |-> Empty, close |-> Empty, policies |-> Empty, intervals |-> Empty, lines |-> Empty]
Id(k) == "n" \o ToString(n + k)
Put(kind, w, x, k) == m' = [m EXCEPT ![kind][w] = Append(@, x)] /\ n' = n + k
Ids(kind) == UNION {{x.id : x \in Elems(m[kind][w])} : w \in 1..3}
EdgeIds == {e.id : e \in Edges(m)}
E(k, normal) == [id |-> Id(k), p0 |-> <<"0", "0">>, p1 |-> <<"0", "1">>, axis |-> "V", dir |-> "YMAX", normal |-> normal, mesh |-> TRUE, free |-> TRUE]
AddPolygon == /\ Cardinality(Ids("polygons")) < MaxPolygons
              /\ \E w \in {1, 3} : Put("polygons", w, [id |-> Id(1), name |-> "p", rot |-> "CW", edges |-> <<E(2, "XMIN"), E(3, "NONE")>>], 3)
AddEip == \E e \in EdgeIds, g \in Ids("polygons"), b \in {""} \cup EdgeIds :
    Put("eip", 1, [id |-> Id(1), edge |-> e, solved |-> FALSE, overlaps |-> <<[polygon |-> g, by |-> b, p0 |-> <<"0", "0">>, p1 |-> <<"0", "1">>, axis |-> "V"]>>], 1)
AddPolicy == \E e \in {""} \cup EdgeIds : Put("policies", 2, [id |-> Id(1), policy |-> "THIRDS", normal |-> "MIN", on |-> TRUE, d |-> "1", edge |-> e], 1)
AddColinear == \E e \in EdgeIds, f \in EdgeIds, s \in {""} \cup Ids("policies") : e # f /\ Put("colinear", 2, [id |-> Id(1), axis |-> "Y", edges |-> <<e, f>>, sol |-> s], 1)
AddClose == \E p \in Ids("policies"), q \in Ids("policies"), s \in {""} \cup Ids("policies") :
    p # q /\ s \notin {p, q} /\ Put("close", 2, [id |-> Id(1), policies |-> <<p, q>>, sol |-> s], 1)
AddInterval == \E p \in Ids("policies"), q \in Ids("policies") :
    p # q /\ Put("intervals", 2, [id |-> Id(1), dmax |-> "1", bl |-> "2", bs |-> "2", al |-> "2", as |-> "2", before |-> p, after |-> q], 1)
AddLine == \E i \in {""} \cup Ids("intervals"), p \in {""} \cup Ids("policies") : Put("lines", 2, [id |-> Id(1), coord |-> "1", interval |-> i, policy |-> p], 1)
Unmesh == \E w \in 1..3 : \E k \in DOMAIN m.polygons[w] : \E j \in {1, 2} :
    m.polygons[w][k].edges[j].mesh /\ m' = [m EXCEPT !.polygons[w][k].edges[j].mesh = FALSE] /\ UNCHANGED n
Disable == \E k \in DOMAIN m.policies[2] : m.policies[2][k].on /\ m' = [m EXCEPT !.policies[2][k].on = FALSE] /\ UNCHANGED n
TurnRound == \E k \in DOMAIN m.intervals[2] : LET i == m.intervals[2][k] IN
    i.bl # "3" /\ m' = [m EXCEPT !.intervals[2][k] = [i EXCEPT !.bl = "3", !.before = i.after, !.after = i.before]] /\ UNCHANGED n
Grow == AddPolygon \/ AddEip \/ AddPolicy \/ AddColinear \/ AddClose \/ AddInterval \/ AddLine
Total(k) == Len(m[k][1]) + Len(m[k][2]) + Len(m[k][3])
Size == Total("polygons") + Total("eip") + Total("colinear") + Total("close") + Total("policies") + Total("intervals") + Total("lines")
Next == (Size < MaxParts /\ Grow) \/ Unmesh \/ Disable \/ TurnRound
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
BoxIds == {b.id : b \in Boxes(m)}
Unique == Cardinality(BoxIds) = Cardinality(Boxes(m))
\* every part is told, in a plane or an axis
Complete == \A B \in {Boxes(m)} :
    /\ Cardinality(B) = 6 + Size + 2 * Total("polygons")
    /\ \A b \in B : b.inside = "" \/ \E c \in B : c.id = b.inside /\ (c.inside = "" \/ \E d \in B : d.id = c.inside /\ d.inside = "")
\* links lead out of one box and into another, through pins that are there
Connected == \A B \in {Boxes(m)} : \A k \in Links(m) : \E a \in B, b \in B :
    /\ a.id = k.a /\ b.id = k.b /\ a # b
    /\ k.ap # "" => (k.ap \o " >") \in a.pins
    /\ k.bp # "" => (k.bp \o " <") \in b.pins
\* what is read back from the links alone
ReadBack == \A L \in {Links(m)} :
    /\ \A w \in 1..3 : \A c \in Elems(m.colinear[w]) : /\ {k.a : k \in {k \in L : k.b = c.id}} = Elems(c.edges)
                                                     /\ {k.b : k \in {k \in L : k.a = c.id}} = {c.sol} \ {""}
    /\ \A w \in 1..3 : \A i \in Elems(m.intervals[w]) : /\ \E k \in L : k.b = i.id /\ k.bp = "in1" /\ k.a = i.before
                                                      /\ {k.b : k \in {k \in L : k.a = i.id}} = {l.id : l \in {l \in Elems(m.lines[w]) : l.interval = i.id}}
    /\ \A e \in Edges(m) : \A c \in Elems(m.eip[1]) : (c.edge = e.id) = (\E k \in L : k.a = c.id /\ k.b = e.id)
\* the report that says just that is accepted; one that lacks something, or says it twice, is not
Ordered(f) == Flat([k \in 1..Cardinality(DOMAIN f) |-> LET x == SetToSeq(DOMAIN f)[k] IN [j \in 1..f[x] |-> x]])
Uml == [junk |-> <<>>, links |-> SetToSeq(Links(m)), nodes |-> SetToSeq({[b EXCEPT !.pins = SetToSeq(@), !.facts = Ordered(@)] : b \in Boxes(m)})]
Text == [junk |-> <<>>, close |-> <<>>, eip |-> TextEips(m), colinear |-> TextColinears(m)]
Accepted == UmlOK(m, Uml) /\ TextOK(m, Text)
Less(s) == {RemoveAt(s, k) : k \in DOMAIN s}
Tight == \A u \in {Uml}, t \in {Text}, B \in {Boxes(m)}, L \in {Links(m)} :
    /\ \A s \in Less(u.links) : ~UmlSays(B, L, [u EXCEPT !.links = s])
    /\ \A s \in Less(u.nodes) : ~UmlSays(B, L, [u EXCEPT !.nodes = s])
    /\ u.links # <<>> => ~UmlSays(B, L, [u EXCEPT !.links = Append(@, Head(@))])
    /\ ~UmlSays(B, L, [u EXCEPT !.nodes = Append(@, Head(@))])
    /\ \A s \in Less(t.eip) : ~TextOK(m, [t EXCEPT !.eip = s])
    /\ \A s \in Less(t.colinear) : ~TextOK(m, [t EXCEPT !.colinear = s])
\* nothing happens that is not told
Told == [][Boxes(m) # Boxes(m)' \/ Links(m) # Links(m)']_vars
=============================================================================

------------------------------ MODULE Pipeline ------------------------------
(* A meshing session: the fifteen steps run one after another on the document that was loaded, the linear history of     *)
(* the situations that were remembered, and the edits.  A situation is what was done to the document to reach it: the    *)
(* steps performed and the edits made, in order.  That the model shown by the application is a function of the situation *)
(* (and of nothing else done before) is what C04-C07 ask for; the conformance check keeps, for each situation met, a     *)
(* digest of the whole model and rejects a second, different one.                                                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT NS                         \* number of steps: 15 in the application
VARIABLES doc,                      \* what was loaded: [d |-> document, ov |-> parameters forced from outside], or NoDoc
          cur,                      \* the current situation
          hist, br                  \* remembered situations and the position in them
sess == <<doc, cur, hist, br>>
NoDoc == [d |-> "", ov |-> ""]

\* An item of a situation: a step [t |-> "s", k |-> number, ..] or an edit [t |-> "e", key |-> the whole edit, tg |-> the item edited, gl |-> parameters?].
S(k) == [t |-> "s", k |-> k, key |-> "", tg |-> "", gl |-> FALSE]
E(key, tg, gl) == [t |-> "e", k |-> 0, key |-> key, tg |-> tg, gl |-> gl]
Steps(a, b) == [i \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> S(a + i - 1)]
Max0(X) == IF X = {} THEN 0 ELSE CHOOSE x \in X : \A y \in X : y <= x
Done(p) == Max0({p[i].k : i \in {i \in DOMAIN p : p[i].t = "s"}})       \* the last step performed
Next1(p) == Done(p) + 1
At(p, k) == {i \in DOMAIN p : p[i].t = "s" /\ p[i].k = k}
\* the situation just before step k was performed, the edits made there included; the same situation if it was not
Before(p, k) == IF At(p, k) = {} THEN p ELSE SubSeq(p, 1, (CHOOSE i \in At(p, k) : TRUE) - 1)
Min(a, b) == IF a < b THEN a ELSE b

CanNext == Next1(cur) <= NS
CanPrev == Done(cur) > 0
CanUndo(n) == br - n >= 1
CanRedo(n) == br + n <= Len(hist)

Remember(p) == /\ hist' = Append(SubSeq(hist, 1, br), p)   \* what was undone is abandoned
               /\ br' = br + 1
               /\ cur' = p
               /\ doc' = doc
Load(d, ov) == /\ doc' = [d |-> d, ov |-> ov] /\ cur' = <<>> /\ hist' = <<<<>>>> /\ br' = 1
\* the graphical interface meshes what it opens at once, and has no session any more when what it was to open is refused
Open(d, ov) == /\ doc' = [d |-> d, ov |-> ov] /\ cur' = Steps(1, NS) /\ hist' = <<<<>>, Steps(1, NS)>> /\ br' = 2
Refused == doc' = NoDoc /\ cur' = <<>> /\ hist' = <<>> /\ br' = 0
RunAll == Remember(cur \o Steps(Next1(cur), NS))
RunNext == IF CanNext THEN Remember(cur \o Steps(Next1(cur), Next1(cur))) ELSE UNCHANGED sess
Prev == IF CanPrev THEN Remember(Before(cur, Done(cur))) ELSE UNCHANGED sess
Undo(n) == IF CanUndo(n) THEN br' = br - n /\ cur' = hist[br - n] /\ UNCHANGED <<doc, hist>> ELSE UNCHANGED sess
Redo(n) == IF CanRedo(n) THEN br' = br + n /\ cur' = hist[br + n] /\ UNCHANGED <<doc, hist>> ELSE UNCHANGED sess
RunFrom(b, k) == Remember(b \o Steps(Min(k, Next1(b)), NS))
From(k) == RunFrom(Before(cur, k), k)
Edit(e, k) == LET b == Append(Before(cur, k), e) IN RunFrom(b, k)

\* The steps a command performs, in order; going back, undoing and redoing perform none.
None == <<>>
RanAll == Steps(Next1(cur), NS)
RanNext == IF CanNext THEN Steps(Next1(cur), Next1(cur)) ELSE None
RanFrom(k) == Steps(Min(k, Next1(Before(cur, k))), NS)
\* What the progress reports tell while a command is carried out. Each is [s |-> the step it is told to belong to (0: none,
\* the document is being read), b |-> did it go back, o |-> did it go past its end, w |-> did it come to an end]. They tell
\* all the steps performed and no other, in order.
ReportsOK(rs, ran, reading) ==
    /\ \A i \in DOMAIN rs : ~rs[i].b /\ ~rs[i].o /\ rs[i].w
    /\ \A i \in DOMAIN rs : \A j \in DOMAIN rs : i < j => rs[i].s <= rs[j].s
    /\ {rs[i].s : i \in DOMAIN rs} = {ran[i].k : i \in DOMAIN ran} \cup reading

\* Two situations that have to look the same: parameters forced when loading or edited afterwards are the same thing
\* (nothing before step 3 depends on them), edits made between the same two steps commute, the last one of an item wins.
Slot(p, i) == Done(SubSeq(p, 1, i))
Edits(p) == {i \in DOMAIN p : p[i].t = "e"}
Wins(p, i) == \A j \in Edits(p) : (j > i /\ p[j].tg = p[i].tg /\ Slot(p, j) = Slot(p, i)) => FALSE
Globals(p) == {i \in Edits(p) : p[i].gl}
Canon(d, p) == << d.d, IF Globals(p) = {} THEN d.ov ELSE p[Max0(Globals(p))].key, Done(p),
                  {<<Slot(p, i), p[i].tg, p[i].key>> : i \in {i \in Edits(p) \ Globals(p) : Wins(p, i)}} >>

\* What a situation may be: the steps are those from the first one on, none missing, none twice.
WellFormed(p) == LET q == SelectSeq(p, LAMBDA x : x.t = "s") IN \A i \in DOMAIN q : q[i].k = i
SessionOK == /\ \A i \in DOMAIN hist : WellFormed(hist[i])
             /\ WellFormed(cur)
             /\ doc # NoDoc => br \in DOMAIN hist /\ cur = hist[br] /\ hist[1] = <<>>
=============================================================================

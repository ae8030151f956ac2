---------------------------- MODULE MCPipeline ----------------------------
(* Exhaustive exploration of small sessions, with the properties C04-C07 stated on the history of what was asked for. *)
EXTENDS Pipeline, TLC
CONSTANTS Docs, MaxHist, MaxEdits
VARIABLES last    \* the command just carried out, with the session before it
vars == <<doc, cur, hist, br, last>>
\* edits: of parameters (consumed by step 2 here), of an item (consumed by step 3), each with two values
EditPool == { [e |-> E("g=1", "g", TRUE), k |-> 2], [e |-> E("g=2", "g", TRUE), k |-> 2],
              [e |-> E("x=1", "x", FALSE), k |-> 3], [e |-> E("x=2", "x", FALSE), k |-> 3], [e |-> E("y=1", "y", FALSE), k |-> NS] }
Pre == [doc |-> doc, cur |-> cur, hist |-> hist, br |-> br]
Init == doc = NoDoc /\ cur = <<>> /\ hist = <<>> /\ br = 0 /\ last = [c |-> "init"]
Do(c, A) == A /\ last' = [c |-> c, pre |-> Pre]
DoN(c, n, A) == A /\ last' = [c |-> c, n |-> n, pre |-> Pre]
MCNext == \/ \E d \in Docs : Do("load", Load(d, ""))
          \/ \E d \in Docs : Do("open", Open(d, ""))
          \/ doc # NoDoc /\ Do("bad", Refused)
          \/ doc # NoDoc /\ \/ Do("next", RunNext) \/ Do("prev", Prev)
                            \/ Done(cur) = 0 /\ Do("all", RunAll)
                            \/ \E n \in 1..2 : DoN("undo", n, Undo(n)) \/ DoN("redo", n, Redo(n))
                            \/ \E k \in 1..NS : DoN("from", k, From(k))
                            \/ \E x \in EditPool : DoN("edit", x, Edit(x.e, x.k))
Bound == Len(hist) <= MaxHist /\ Cardinality(Edits(cur)) <= MaxEdits
View == <<doc, cur, hist, br>>
Spec == Init /\ [][MCNext]_vars

\* C04
LoadIsClean == last.c = "load" => ~CanUndo(1) /\ ~CanRedo(1) /\ Done(cur) = 0 /\ Len(hist) = 1
\* C05
OneStepForth == last.c = "next" => LET p == last.pre IN
    IF Done(p.cur) < NS THEN Done(cur) = Done(p.cur) + 1 /\ SubSeq(cur, 1, Len(p.cur)) = p.cur /\ Len(cur) = Len(p.cur) + 1 ELSE cur = p.cur
OneStepBack == last.c = "prev" => LET p == last.pre IN
    IF Done(p.cur) > 0 THEN Done(cur) = Done(p.cur) - 1 /\ SubSeq(p.cur, 1, Len(cur)) = cur /\ p.cur[Len(cur) + 1] = S(Done(p.cur)) ELSE cur = p.cur
AllOnce == last.c \in {"all", "from", "edit"} => Done(cur) = NS
\* C24: a command is enabled exactly when it would do something, and opening gives a meshed document with nothing of the one before
Moved == hist # last.pre.hist \/ br # last.pre.br
EnabledIffUseful ==
    /\ last.c = "undo" => (last.pre.br - last.n >= 1) = Moved
    /\ last.c = "redo" => (last.pre.br + last.n <= Len(last.pre.hist)) = Moved
    /\ last.c = "next" => (Done(last.pre.cur) < NS) = Moved
    /\ last.c = "prev" => (Done(last.pre.cur) > 0) = Moved
OpenIsMeshed == last.c = "open" => Done(cur) = NS /\ hist[1] = <<>> /\ br = 2 /\ ~CanRedo(1) /\ ~CanUndo(2) /\ Edits(cur) = {}
RefusedIsEmpty == last.c = "bad" => ~CanUndo(1) /\ ~CanRedo(1) /\ hist = <<>>
\* C06
NavigationAddsNothing == last.c \in {"undo", "redo"} => cur \in {last.pre.hist[i] : i \in DOMAIN last.pre.hist} /\ hist = last.pre.hist
SameAgain == last.c = "from" => Canon(doc, cur) = Canon(doc, Before(last.pre.cur, last.n) \o Steps(Done(Before(last.pre.cur, last.n)) + 1, NS))
\* C07: the edit is there, at the place it was asked for, what is after it was computed again, what is before it is untouched,
\* and undoing leads back to what was there before.
EditInEffect == last.c = "edit" => LET x == last.n b == Before(last.pre.cur, x.k) IN
    /\ SubSeq(cur, 1, Len(b)) = b /\ cur[Len(b) + 1] = x.e
    /\ \A i \in (Len(b) + 2)..Len(cur) : cur[i].t = "s"
    /\ Slot(cur, Len(b) + 1) < x.k
    /\ x.e.gl => Canon(doc, cur)[2] = x.e.key
    /\ CanUndo(1) /\ hist[br - 1] = last.pre.cur
\* C27: the steps a command performs end where the session then is, and what is before the first of them was kept as it was
Ran == LET p == last.pre.cur IN
    CASE last.c = "all" -> Steps(Next1(p), NS) [] last.c = "next" -> (IF Next1(p) <= NS THEN Steps(Next1(p), Next1(p)) ELSE None)
      [] last.c = "from" -> Steps(Min(last.n, Next1(Before(p, last.n))), NS) [] last.c = "edit" -> Steps(Min(last.n.k, Next1(Before(p, last.n.k))), NS)
      [] last.c = "open" -> Steps(1, NS) [] OTHER -> None
RanIsThere == last.c \in {"all", "next", "from", "edit", "open"} =>
    LET n == Len(Ran) IN SubSeq(cur, Len(cur) - n + 1, Len(cur)) = Ran /\ (n > 0 => Done(SubSeq(cur, 1, Len(cur) - n)) = Ran[1].k - 1 /\ Ran[n].k = Done(cur))
\* an edit makes the same as loading with it, whatever had been done
EditEqualsLoading == last.c = "edit" /\ last.n.e.gl /\ (\A i \in Edits(last.pre.cur) : last.pre.cur[i].gl) =>
    Canon(doc, cur) = Canon([d |-> doc.d, ov |-> last.n.e.key], Steps(1, NS))
=============================================================================

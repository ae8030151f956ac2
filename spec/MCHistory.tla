------------------------------ MODULE MCHistory ------------------------------
(* Bounded exhaustive exploration of History. The constants select which      *)
(* commands take part, so that each property gets the deepest affordable      *)
(* exploration of the commands that matter to it.                             *)
EXTENDS History
CONSTANTS MaxPoints, MaxHist, MaxObjs, MaxAnn, MaxPins, MaxStep, AutoGc, WithReset
Objs == 1 .. MaxObjs
SetInit == /\ parent = [n \in {Root} |-> -1] /\ nextId = 1 /\ cur = Root
           /\ hist = <<Root>> /\ br = 0 /\ pins = <<>> /\ ann = <<>> /\ autogc \in AutoGc
           /\ objs = <<>>
MCNext ==
  \/ MakePoint
  \/ \E x \in Objs : RecordNext(x, nextId) \/ RecordHere(x, nextId) \/ Create(x, nextId, FALSE)
  \/ \E t \in Nodes : GoOnly(t) \/ GoAndRemember(t)
  \/ Remember
  \/ MaxPins > 0 /\ (Pin \/ \E t \in Range(pins) : Unpin(t))
  \/ AutoGc # {TRUE} /\ (Gc \/ \E b \in BOOLEAN : autogc # b /\ SetAutoGc(b))
  \/ WithReset /\ Reset
  \/ \E n \in 1 .. MaxStep : Undo(n) \/ Redo(n)
  \/ MaxAnn > 0 /\ Annotate(1)
MCSpec == SetInit /\ [][MCNext]_hvars
Bound == nextId <= MaxPoints /\ Len(hist) <= MaxHist /\ Len(pins) <= MaxPins
         /\ Cardinality(DOMAIN ann) <= MaxAnn
         /\ \A x \in DOMAIN objs : Len(objs[x].log) <= 3
\* a point only disappears when it is not needed any more
NoLoss == [][ \A n \in Nodes : n \notin Nodes' => \/ n \notin Reachable(parent, cur, hist, pins)
                                                   \/ n \notin Reachable(parent', cur', hist', pins') ]_hvars
\* with automatic collection, whatever abandons points leaves nothing unreachable behind
NoLeak == [][ (autogc /\ (Len(pins') < Len(pins) \/ (br # 0 /\ br' = 0 /\ Len(hist') <= br + 1 /\ hist' # hist))) =>
                 \A n \in Nodes' : n \in Reachable(parent', cur', hist', pins') \/ n \in Reachable(parent, cur, hist, pins) ]_hvars
=============================================================================

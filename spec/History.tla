------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* The history of a document: a tree of points, a current point, the linear *)
(* list of remembered points walked by undo and redo, pins, annotations,    *)
(* and objects whose states are recorded at points.                         *)
(*                                                                          *)
(* The state machine is written at the level of the design of the           *)
(* implementation (deferred restoration of objects, browsing position in    *)
(* the remembered list, explicit collection).  The properties C01, C02, C03 *)
(* and the history part of C04 are stated declaratively at the end and are  *)
(* checked as invariants of this state machine; the implementation is bound *)
(* to it by trace validation (HistoryTrace.tla).                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  parent,   \* node -> parent node, DOMAIN parent = the points of the tree; parent[0] = -1
  nextId,   \* next identity to be given to a point
  cur,      \* the current point
  hist,     \* remembered points, oldest first; hist[1] is the root
  br,       \* 0: not browsing; otherwise hist[br] is the point an undo or redo led to
  pins,     \* pinned points, in order
  ann,      \* annotated point -> annotation
  autogc,   \* is a collection run whenever points may have become unreachable
  objs      \* object -> record, see NewObj

hvars == <<parent, nextId, cur, hist, br, pins, ann, autogc, objs>>

Root == 0
Nodes == DOMAIN parent
Pref(s, n) == SubSeq(s, 1, n)
Range(s) == {s[i] : i \in DOMAIN s}
Last(s) == s[Len(s)]

RECURSIVE AncUp(_, _, _)
AncUp(p, n, acc) == IF p[n] = -1 THEN acc \union {n} ELSE AncUp(p, p[n], acc \union {n})
\* a point together with all its ancestors
AncSelf(p, n) == AncUp(p, n, {})
RECURSIVE PathUp(_, _)
PathUp(p, n) == IF p[n] = -1 THEN <<n>> ELSE <<n>> \o PathUp(p, p[n])
Children(p, n) == {m \in DOMAIN p : p[m] = n}

(***************************************************************************)
(* Objects                                                                  *)
(***************************************************************************)
\* log: <<point, value>> in order of recording; ocur: the point whose state is shown;
\* lazy: a pending restoration (-2 = none); cared: the history drives this object
\* mut: recording twice at one point replaces the first record (otherwise the first one stays)
NewObj(init, val, mut) == [init |-> init, log |-> << <<init, val>> >>, ocur |-> init, lazy |-> -2,
                           cared |-> TRUE, alive |-> TRUE, mut |-> mut]

LogNodes(o) == {o.log[i][1] : i \in DOMAIN o.log}
ValueAt(o, n) == LET i == CHOOSE i \in DOMAIN o.log : o.log[i][1] = n IN o.log[i][2]

\* restoration: the most recently recorded state among those of ancestors of the target
RECURSIVE Resolve(_, _, _, _)
Resolve(p, o, t, i) ==
  IF i = 0 THEN o.init
  ELSE IF o.log[i][1] \in AncSelf(p, t) THEN o.log[i][1]
  ELSE Resolve(p, o, t, i - 1)
Settle(p, o) == IF o.lazy = -2 THEN o
                ELSE [o EXCEPT !.ocur = Resolve(p, o, o.lazy, Len(o.log)), !.lazy = -2]

Shown(p, o) == LET s == Settle(p, o) IN ValueAt(s, s.ocur)
ShownNode(p, o) == Settle(p, o).ocur

\* a restoration asked to every object the history drives
Driven(o) == o.cared /\ o.alive
GoAll(os, t) == [x \in DOMAIN os |-> IF Driven(os[x]) THEN [os[x] EXCEPT !.lazy = t] ELSE os[x]]

Record(o, t, v) ==
  IF t \in LogNodes(o) THEN (IF o.mut THEN [o EXCEPT !.log = [i \in DOMAIN @ |-> IF @[i][1] = t THEN <<t, v>> ELSE @[i]]] ELSE o)
  ELSE [o EXCEPT !.lazy = -2, !.ocur = t, !.log = Append(@, <<t, v>>)]

(***************************************************************************)
(* Collection                                                               *)
(***************************************************************************)
Reachable(p, c, h, pn) == UNION {AncSelf(p, n) : n \in {c} \union Range(h) \union Range(pn)}

EraseFrom(p, o, gone) ==
  LET s == Settle(p, o) IN
  [s EXCEPT !.log = SelectSeq(@, LAMBDA e : \/ e[1] = s.init \/ e[1] = s.ocur \/ e[1] \notin gone)]

Collected(p, c, h, pn, an, os) ==
  LET keep == Reachable(p, c, h, pn)
      gone == DOMAIN p \ keep
  IN [p |-> [n \in keep |-> p[n]],
      an |-> [n \in DOMAIN an \ gone |-> an[n]],
      \* an object first recorded at a point that is gone was only reachable from states at that
      \* point: its owner lets go of it
      os |-> [x \in DOMAIN os |-> IF ~ Driven(os[x]) THEN os[x]
                                  ELSE [EraseFrom(p, os[x], gone) EXCEPT !.alive = @ /\ os[x].init \in keep]]]

\* Leaves browsing: the undone points are forgotten
StopBrowse(h, b) == IF b = 0 THEN h ELSE Pref(h, b)
Settled == [parent |-> parent, cur |-> cur, hist |-> hist, ann |-> ann, objs |-> objs]
AfterStop ==
  IF br = 0 THEN Settled
  ELSE LET h == Pref(hist, br)
           g == Collected(parent, cur, h, pins, ann, objs)
       IN IF autogc THEN [parent |-> g.p, cur |-> cur, hist |-> h, ann |-> g.an, objs |-> g.os]
                    ELSE [Settled EXCEPT !.hist = h]

(***************************************************************************)
(* Undo and redo as functions of (hist, br, cur)                            *)
(***************************************************************************)
CanUndoN(h, b, c, n) ==
  /\ n > 0
  /\ IF b # 0 THEN n < b
     ELSE n <= (IF Last(h) = c THEN Len(h) - 1 ELSE Len(h))
CanRedoN(h, b, n) == n > 0 /\ b # 0 /\ n <= Len(h) - b

\* the new browsing index (Len(h) meaning: not browsing any more)
UndoIdx(h, b, c, n) ==
  IF b # 0 THEN b - n
  ELSE IF Last(h) = c THEN Len(h) - n ELSE Len(h) - (n - 1)
Norm(h, i) == IF i = Len(h) THEN 0 ELSE i
UndoN(h, b, c, n) == IF CanUndoN(h, b, c, n)
                     THEN LET i == UndoIdx(h, b, c, n) IN [br |-> Norm(h, i), cur |-> h[i]]
                     ELSE [br |-> b, cur |-> c]
RedoN(h, b, c, n) == IF CanRedoN(h, b, n)
                     THEN LET i == b + n IN [br |-> Norm(h, i), cur |-> h[i]]
                     ELSE [br |-> b, cur |-> c]

(***************************************************************************)
(* Actions                                                                  *)
(***************************************************************************)
HInit ==
  /\ parent = [n \in {Root} |-> -1] /\ nextId = 1 /\ cur = Root
  /\ hist = <<Root>> /\ br = 0 /\ pins = <<>> /\ ann = <<>> /\ autogc = TRUE
  /\ objs = <<>>

\* a new point below the current one
MakePoint ==
  LET s == AfterStop IN
  /\ parent' = [n \in DOMAIN s.parent \union {nextId} |-> IF n = nextId THEN s.cur ELSE s.parent[n]]
  /\ cur' = nextId /\ nextId' = nextId + 1
  /\ hist' = s.hist /\ br' = 0 /\ ann' = s.ann /\ objs' = s.objs
  /\ UNCHANGED <<pins, autogc>>

\* a new point, at which object x records v
RecordNext(x, v) ==
  LET s == AfterStop IN
  /\ x \in DOMAIN objs
  /\ parent' = [n \in DOMAIN s.parent \union {nextId} |-> IF n = nextId THEN s.cur ELSE s.parent[n]]
  /\ cur' = nextId /\ nextId' = nextId + 1
  /\ hist' = s.hist /\ br' = 0 /\ ann' = s.ann
  /\ objs' = [s.objs EXCEPT ![x] = Record(@, nextId, v)]
  /\ UNCHANGED <<pins, autogc>>

\* object x records v at the current point, which has just been made (no later point depends on it)
RecordHere(x, v) ==
  /\ x \in DOMAIN objs /\ Children(parent, cur) = {}
  /\ objs' = [objs EXCEPT ![x] = Record(@, cur, v)]
  /\ UNCHANGED <<parent, nextId, cur, hist, br, pins, ann, autogc>>

\* a new object appears at the current point, driven by the history
Create(x, v, mut) ==
  /\ x \notin DOMAIN objs
  /\ objs' = [y \in DOMAIN objs \union {x} |-> IF y = x THEN NewObj(cur, v, mut) ELSE objs[y]]
  /\ UNCHANGED <<parent, nextId, cur, hist, br, pins, ann, autogc>>

Release(x) ==
  /\ x \in DOMAIN objs /\ objs[x].alive
  /\ objs' = [objs EXCEPT ![x].alive = FALSE]
  /\ UNCHANGED <<parent, nextId, cur, hist, br, pins, ann, autogc>>

GoOnly(t) ==
  /\ IF t \in Nodes THEN cur' = t /\ objs' = GoAll(objs, t)
                    ELSE UNCHANGED <<cur, objs>>
  /\ UNCHANGED <<parent, nextId, hist, br, pins, ann, autogc>>

\* remembering leaves browsing, like making a point does
RememberFrom(p, c, h, b, an, os) ==
  LET h1 == StopBrowse(h, b)
      g == Collected(p, c, h1, pins, an, os)
      doGc == b # 0 /\ autogc
  IN /\ parent' = (IF doGc THEN g.p ELSE p)
     /\ ann' = (IF doGc THEN g.an ELSE an)
     /\ objs' = (IF doGc THEN g.os ELSE os)
     /\ hist' = (IF Last(h1) = c THEN h1 ELSE Append(h1, c))
     /\ br' = 0 /\ cur' = c

Remember ==
  /\ RememberFrom(parent, cur, hist, br, ann, objs)
  /\ UNCHANGED <<nextId, pins, autogc>>

GoAndRemember(t) ==
  /\ IF t \in Nodes THEN RememberFrom(parent, t, hist, br, ann, GoAll(objs, t))
                    ELSE UNCHANGED <<parent, cur, hist, br, ann, objs>>
  /\ UNCHANGED <<nextId, pins, autogc>>

Undo(n) ==
  LET u == UndoN(hist, br, cur, n) IN
  /\ cur' = u.cur /\ br' = u.br
  /\ objs' = IF CanUndoN(hist, br, cur, n) THEN GoAll(objs, u.cur) ELSE objs
  /\ UNCHANGED <<parent, nextId, hist, pins, ann, autogc>>

Redo(n) ==
  LET u == RedoN(hist, br, cur, n) IN
  /\ cur' = u.cur /\ br' = u.br
  /\ objs' = IF CanRedoN(hist, br, n) THEN GoAll(objs, u.cur) ELSE objs
  /\ UNCHANGED <<parent, nextId, hist, pins, ann, autogc>>

Pin ==
  /\ pins' = IF cur \in Range(pins) THEN pins ELSE Append(pins, cur)
  /\ UNCHANGED <<parent, nextId, cur, hist, br, ann, autogc, objs>>

Collect(h, pn) ==
  LET g == Collected(parent, cur, h, pn, ann, objs) IN
  parent' = g.p /\ ann' = g.an /\ objs' = g.os

Unpin(t) ==
  LET pn == SelectSeq(pins, LAMBDA q : q # t) IN
  /\ pins' = pn
  /\ IF autogc THEN Collect(hist, pn) ELSE UNCHANGED <<parent, ann, objs>>
  /\ UNCHANGED <<nextId, cur, hist, br, autogc>>

\* the first annotation of a point stays
Annotate(a) ==
  /\ ann' = IF cur \in DOMAIN ann THEN ann
            ELSE [n \in DOMAIN ann \union {cur} |-> IF n = cur THEN a ELSE ann[n]]
  /\ UNCHANGED <<parent, nextId, cur, hist, br, pins, autogc, objs>>

Gc ==
  /\ Collect(hist, pins)
  /\ UNCHANGED <<nextId, cur, hist, br, pins, autogc>>

SetAutoGc(b) ==
  /\ autogc' = b
  /\ UNCHANGED <<parent, nextId, cur, hist, br, pins, ann, objs>>

\* a new document: everything but the root is forgotten
Reset ==
  /\ parent' = [n \in {Root} |-> -1] /\ cur' = Root /\ hist' = <<Root>> /\ br' = 0
  /\ pins' = <<>> /\ ann' = <<>> /\ objs' = <<>>
  /\ UNCHANGED <<nextId, autogc>>

\* the nearest annotated point above the current one (or at it), -1 if none
RECURSIVE FirstAnn(_, _)
FirstAnn(path, pred) == IF path = <<>> THEN -1
                        ELSE IF Head(path) \in pred THEN Head(path) ELSE FirstAnn(Tail(path), pred)
FindAnn(incl, pred) == FirstAnn(IF incl THEN PathUp(parent, cur) ELSE Tail(PathUp(parent, cur)), pred)

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
HTypeOK ==
  /\ Root \in Nodes /\ parent[Root] = -1
  /\ \A n \in Nodes \ {Root} : parent[n] \in Nodes
  /\ cur \in Nodes /\ hist[1] = Root
  /\ br \in 0 .. (Len(hist) - 1)
  /\ Range(pins) \subseteq Nodes

\* C01 -----------------------------------------------------------------------
C01_HistoryAlive == Range(hist) \subseteq Nodes
C01_NoStutter == \A i \in 1 .. Len(hist) - 1 : hist[i] # hist[i + 1]
\* n steps at once are n single steps, and an impossible request changes nothing
RECURSIVE UndoOnes(_, _, _, _)
UndoOnes(h, b, c, n) == IF n = 0 THEN [br |-> b, cur |-> c]
                        ELSE LET u == UndoN(h, b, c, 1) IN UndoOnes(h, u.br, u.cur, n - 1)
RECURSIVE RedoOnes(_, _, _, _)
RedoOnes(h, b, c, n) == IF n = 0 THEN [br |-> b, cur |-> c]
                        ELSE LET u == RedoN(h, b, c, 1) IN RedoOnes(h, u.br, u.cur, n - 1)
C01_StepByStep == \A n \in 1 .. Len(hist) + 1 :
  /\ CanUndoN(hist, br, cur, n) => UndoN(hist, br, cur, n) = UndoOnes(hist, br, cur, n)
  /\ CanRedoN(hist, br, n) => RedoN(hist, br, cur, n) = RedoOnes(hist, br, cur, n)
\* redoing what was undone leads back
AtRemembered == IF br = 0 THEN TRUE ELSE cur = hist[br]
C01_RoundTrip == \A n \in 1 .. Len(hist) : (AtRemembered /\ CanUndoN(hist, br, cur, n)) =>
  LET u == UndoN(hist, br, cur, n)
      k == IF br = 0 /\ Last(hist) # cur THEN n - 1 ELSE n
      r == RedoN(hist, u.br, u.cur, k)
  IN IF br = 0 /\ Last(hist) # cur
     THEN k = 0 \/ r = [br |-> 0, cur |-> Last(hist)]
     ELSE CanRedoN(hist, u.br, k) /\ r = [br |-> br, cur |-> cur]
\* the point n steps back is the one remembered n steps earlier
C01_Linear == br = 0 /\ Last(hist) = cur =>
  \A n \in 1 .. Len(hist) - 1 : UndoN(hist, br, cur, n).cur = hist[Len(hist) - n]
\* C02 -----------------------------------------------------------------------
\* closest recorded state from the current point back to the root
RECURSIVE Closest(_, _)
Closest(path, o) == IF path = <<>> THEN o.init
                    ELSE IF Head(path) \in LogNodes(o) THEN Head(path) ELSE Closest(Tail(path), o)
C02_Restored == \A x \in DOMAIN objs : Driven(objs[x]) =>
  ShownNode(parent, objs[x]) = Closest(PathUp(parent, cur), objs[x])
\* C03 -----------------------------------------------------------------------
C03_Safe == /\ Reachable(parent, cur, hist, pins) \subseteq Nodes
            /\ DOMAIN ann \subseteq Nodes
            /\ \A x \in DOMAIN objs : Driven(objs[x]) =>
                 \A i \in DOMAIN objs[x].log : objs[x].log[i][1] \in Nodes
\* a collection removes exactly what is unreachable and changes nothing that can be seen
C03_Exact == LET g == Collected(parent, cur, hist, pins, ann, objs) IN
  /\ DOMAIN g.p = Reachable(parent, cur, hist, pins)
  /\ \A n \in DOMAIN g.p : g.p[n] = parent[n]
  /\ DOMAIN g.an = DOMAIN ann \intersect DOMAIN g.p
  /\ \A n \in DOMAIN g.an : g.an[n] = ann[n]
  /\ \A x \in DOMAIN objs : Driven(g.os[x]) =>
       /\ Shown(g.p, g.os[x]) = Shown(parent, objs[x])
       /\ \A t \in DOMAIN g.p : Shown(g.p, [g.os[x] EXCEPT !.lazy = t]) = Shown(parent, [objs[x] EXCEPT !.lazy = t])
=============================================================================

----------------------------- MODULE HistoryTrace -----------------------------
(***************************************************************************)
(* Validation of executions of the real history machinery.  Every line of   *)
(* the trace is one call of its public interface together with what could   *)
(* be seen afterwards.  FOCUS selects the observations that are compared:   *)
(*   C01  current point, and which undo/redo requests are possible          *)
(*   C02  the states shown by objects (declaratively, whatever the current  *)
(*        point and the tree have become)                                   *)
(*   C03  the points, annotations and recorded states that remain           *)
(***************************************************************************)
EXTENDS History, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
FOCUS == IOEnv.FOCUS
VARIABLE l
tvars == <<parent, nextId, cur, hist, br, pins, ann, autogc, objs, l>>

SetOf(a) == {a[i] : i \in DOMAIN a}
FunOf(a) == [n \in {a[i][1] : i \in DOMAIN a} |-> (CHOOSE p \in SetOf(a) : p[1] = n)[2]]

Op(e) ==
  CASE e.op = "begin"   -> /\ parent' = [n \in {Root} |-> -1] /\ nextId' = 1 /\ cur' = Root /\ hist' = <<Root>> /\ br' = 0
                           /\ pins' = <<>> /\ ann' = <<>> /\ autogc' = TRUE /\ objs' = <<>>
    [] e.op = "mk"      -> MakePoint
    [] e.op = "recnext" -> RecordNext(e.x, e.v)
    [] e.op = "rechere" -> RecordHere(e.x, e.v)
    [] e.op = "create"  -> Create(e.x, e.v, e.mut)
    [] e.op = "release" -> Release(e.x)
    [] e.op = "go"      -> GoOnly(e.t)
    [] e.op = "gorem"   -> GoAndRemember(e.t)
    [] e.op = "rem"     -> Remember
    [] e.op = "undo"    -> Undo(e.n)
    [] e.op = "redo"    -> Redo(e.n)
    [] e.op = "pin"     -> Pin
    [] e.op = "unpin"   -> Unpin(e.t)
    [] e.op = "ann"     -> Annotate(e.v)
    [] e.op = "gc"      -> Gc
    [] e.op = "autogc"  -> SetAutoGc(e.v)
    [] e.op = "reset"   -> Reset
    [] e.op = "look"    -> /\ objs' = [x \in DOMAIN objs |-> IF objs[x].alive THEN Settle(parent, objs[x]) ELSE objs[x]]
                           /\ UNCHANGED <<parent, nextId, cur, hist, br, pins, ann, autogc>>

\* the answers of "can n steps be undone/redone" for n = 0, 1, 2, ... as recorded
SeesC01(e) ==
  /\ e.cur = cur'
  /\ \A k \in DOMAIN e.cu : e.cu[k] = CanUndoN(hist', br', cur', k - 1)
  /\ \A k \in DOMAIN e.cr : e.cr[k] = CanRedoN(hist', br', k - 1)
SeesC03(e) ==
  /\ {p[1] : p \in SetOf(e.nodes)} = DOMAIN parent'
  /\ \A p \in SetOf(e.nodes) : parent'[p[1]] = p[2]
  /\ {p[1] : p \in SetOf(e.ann)} = DOMAIN ann'
  /\ \A p \in SetOf(e.ann) : ann'[p[1]] = p[2]
  /\ \A k \in DOMAIN e.logs : LET x == e.logs[k][1] IN SetOf(e.logs[k][2]) = LogNodes(objs'[x])
  /\ e.pins = pins'
  /\ e.op \in {"go", "gorem"} => (e.ok <=> e.t \in Nodes)

(***************************************************************************)
(* C02: tracking by observation. Only what was recorded where is followed;  *)
(* the tree and the current point are those observed.                       *)
(***************************************************************************)
Obs2(e) ==
  /\ parent' = FunOf(e.nodes) /\ cur' = e.cur
  /\ nextId' = nextId /\ hist' = hist /\ br' = br /\ pins' = pins /\ ann' = ann /\ autogc' = autogc
Op2(e) ==
  /\ Obs2(e)
  /\ objs' = CASE e.op \in {"begin", "reset"} -> <<>>
               [] e.op = "create" -> [y \in DOMAIN objs \union {e.x} |-> IF y = e.x THEN NewObj(e.cur, e.v, e.mut) ELSE objs[y]]
               [] e.op \in {"recnext", "rechere"} -> [objs EXCEPT ![e.x] = Record(@, e.cur, e.v)]
               [] e.op = "release" -> [objs EXCEPT ![e.x].alive = FALSE]
               [] OTHER -> objs
SeesC02(e) ==
  \A k \in DOMAIN e.shown :
    LET x == e.shown[k][1]
        n == Closest(PathUp(parent', cur'), objs'[x])
    IN e.shown[k][2] = n /\ e.shown[k][3] = ValueAt(objs'[x], n)

Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE FOCUS = "C01" -> Op(e) /\ SeesC01(e)
       [] FOCUS = "C04" -> Op(e) /\ (e.op = "reset" => SeesC01(e) /\ SeesC03(e))
       [] FOCUS = "C03" -> Op(e) /\ SeesC03(e)
       [] FOCUS = "C02" -> Op2(e) /\ SeesC02(e)
TraceInit == HInit /\ l = 1
TraceSpec == TraceInit /\ [][Step]_tvars
Report == PrintT("TRACE-RESULT matched=" \o ToString(TLCGet("stats").diameter - 1) \o " of=" \o ToString(Len(Trace)))
=============================================================================

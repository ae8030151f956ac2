-------------------------------- MODULE Editor --------------------------------
(* The life of a document in the window: what is open, where it would be saved, whether it is saved, and the folder.  The     *)
(* commands are functions from what there is, and the answers given, to the set of what there may be afterwards and how many  *)
(* questions and error messages were seen: where a user has no reason to care which (say, the name kept after a refusal),     *)
(* more than one outcome is right.  A file is nothing, a document (a body and a grid), or something unreadable.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES disk,     \* file name -> content
          ed,       \* the window
          mesh      \* the grid of the model shown, "" if there is none
none == [k |-> "none"]
Device == "/dev/full"                                \* it is there, and nothing can be written to it
Nowhere == "void/x.csx"                              \* in a folder that does not exist
At(d, p) == IF p \in DOMAIN d THEN d[p] ELSE none
Exists(d, p) == p = Device \/ At(d, p).k # "none"
Readable(d, p) == At(d, p).k = "doc"
Writable(d, p) == p \notin {Device, Nowhere, ""}
Put(d, p, c) == (p :> c) @@ d
SameFile(x, y) == x.k = y.k /\ (x.k = "doc" => x.b = y.b /\ x.g = y.g) /\ ("h" \in DOMAIN x /\ "h" \in DOMAIN y => x.h = y.h)
SameDisk(x, y) == \A p \in DOMAIN x \cup DOMAIN y : SameFile(At(x, p), At(y, p))

\* [in |-> what was read, out |-> where it goes, name |-> what the window calls it, ld |-> is there a document, uns |-> is there
\*  work that is not in a file, force |-> overwriting agreed beforehand, open |-> is the window there]
Closed(e) == [e EXCEPT !.open = FALSE]
R(e, d, asked, told) == [e |-> e, d |-> d, asked |-> asked, told |-> told]
\* A load is meshed at once: that grid is in no file yet.
Loaded(e, d, p) == IF Readable(d, p) THEN [e EXCEPT !.in = p, !.name = p, !.ld = TRUE, !.uns = TRUE] ELSE [e EXCEPT !.in = p, !.name = p, !.ld = FALSE, !.uns = FALSE]
Started(p, o, f, d) == LET e == [in |-> "", out |-> o, name |-> "", ld |-> FALSE, uns |-> FALSE, force |-> f, open |-> TRUE] IN IF p = "" THEN e ELSE Loaded(e, d, p)
Opened(e, d, p) == IF p = "" THEN R(e, d, 0, 0) ELSE R(Loaded(e, d, p), d, 0, IF Readable(d, p) THEN 0 ELSE 1)

Says(a, i) == IF i \in DOMAIN a THEN a[i] ELSE "C"    \* the answer to the i-th question
MayAsk(e, d) == IF e.force THEN {FALSE} ELSE IF Exists(d, e.out) THEN {TRUE} ELSE IF e.in = e.out THEN {TRUE, FALSE} ELSE {FALSE}
\* writing where e says, i questions having been asked already
Write(e, d, a, g, i) == { LET j == IF q THEN i + 1 ELSE i IN
                          IF q /\ Says(a, j) # "S" THEN R(e, d, j, 0)
                          ELSE IF Readable(d, e.in) /\ Writable(d, e.out) THEN R([e EXCEPT !.uns = FALSE], Put(d, e.out, [k |-> "doc", b |-> At(d, e.in).b, g |-> g]), j, 0)
                          ELSE R(e, d, j, 1) : q \in MayAsk(e, d) }
\* nothing was saved: under which name the document goes on is left open
OrBefore(S, e) == S \cup { [r EXCEPT !.e = [e EXCEPT !.uns = r.e.uns]] : r \in {r \in S : r.e.uns} }
Save(e, d, a, g, i) == IF ~e.ld THEN {R(e, d, i, 0)}
                       ELSE IF e.out = "" THEN Write([e EXCEPT !.out = e.name], d, a, g, i)
                       ELSE IF e.out = e.name THEN Write(e, d, a, g, i)
                       ELSE IF Says(a, i + 1) # "S" THEN {R(e, d, i + 1, 0)}
                       ELSE OrBefore(Write([e EXCEPT !.name = e.out], d, a, g, i + 1), e)
SaveAs(e, d, p, a, g) == IF ~e.ld \/ p = "" THEN {R(e, d, 0, 0)} ELSE OrBefore(Write([e EXCEPT !.name = p, !.out = p], d, a, g, 0), e)
\* a close that was answered with a save that did not happen does not close
Close(e, d, a, g) == IF ~e.uns THEN {R(Closed(e), d, 0, 0)}
                     ELSE CASE Says(a, 1) = "X" -> {R(Closed(e), d, 1, 0)}
                            [] Says(a, 1) = "S" -> { IF r.e.uns THEN r ELSE [r EXCEPT !.e = Closed(r.e)] : r \in Save(e, d, a, g, 1) }
                            [] OTHER -> {R(e, d, 1, 0)}
\* what the viewer is handed: the document as it would be saved now; nothing else happens
Handed(e, d, g) == IF e.ld /\ Readable(d, e.in) THEN [k |-> "doc", b |-> At(d, e.in).b, g |-> g] ELSE none
Export(e, d) == R(e, d, 0, IF e.ld /\ ~Readable(d, e.in) THEN 1 ELSE 0)
\* the model changed or may have: when the grid is another one, there is work to save
Worked(e, changed) == IF ~e.ld THEN {e} ELSE {[e EXCEPT !.uns = TRUE]} \cup (IF changed THEN {} ELSE {e})
=============================================================================

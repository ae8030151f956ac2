------------------------------- MODULE MCEditor -------------------------------
(* Every short life of documents a.csx and b.csx, with a new name, a full device and a folder that does not exist to save to,  *)
(* files changed behind the window, and every answer; what C25 promises, stated on what happened and not on how Editor says it. *)
EXTENDS Editor
CONSTANTS Meshes, MaxLen, Loads
VARIABLES cmd,      \* the command just carried out, as the conformance check gives it to the program
          last,     \* what there was before it, the answers given and how many were asked for
          n, apart  \* commands so far; was a file changed behind the window?
vars == <<disk, ed, mesh, cmd, last, n, apart>>
D(b, g) == [k |-> "doc", b |-> b, g |-> g]
Answers == {<<>>} \cup [1..1 -> {"S", "C", "X"}] \cup [1..2 -> {"S", "C"}] \cup [1..3 -> {"S", "C"}]
Word(a) == IF a = <<>> THEN "" ELSE IF Len(a) = 1 THEN a[1] ELSE IF Len(a) = 2 THEN a[1] \o a[2] ELSE a[1] \o a[2] \o a[3]
Targets == {"a.csx", "b.csx", "n.csx", Device, Nowhere}
Disk0 == [p \in {"a.csx", "b.csx", "n.csx", "bad.csx"} |-> CASE p = "a.csx" -> D("A", "-") [] p = "b.csx" -> D("B", "-") [] p = "n.csx" -> none [] OTHER -> [k |-> "junk"]]
Init == /\ disk = Disk0 /\ n = 0 /\ apart = FALSE /\ last = [c |-> "start"]
        /\ \E p \in Loads, o \in {"-"} \cup Targets, f \in BOOLEAN :
              /\ ed = Started(IF p = "-" THEN "" ELSE p, IF o = "-" THEN (IF p = "-" THEN "" ELSE p) ELSE o, f, Disk0)
              /\ cmd = "start " \o p \o " " \o o \o (IF f THEN " 1" ELSE " 0")
        /\ mesh = IF ed.ld THEN "m0" ELSE ""
Took(c, w, a, r) == /\ ed' = r.e /\ disk' = r.d /\ cmd' = w /\ last' = [c |-> c, e |-> ed, d |-> disk, a |-> a, asked |-> r.asked, told |-> r.told]
Gives(c, w, a, S) == mesh' = mesh /\ apart' = apart /\ \E r \in S : Took(c, w, a, r)
Next == /\ ed.open /\ n < MaxLen /\ n' = n + 1
        /\ \/ \E a \in Answers : Gives("save", "save " \o Word(a), a, Save(ed, disk, a, mesh, 0))
           \/ \E a \in Answers, p \in {"a.csx", "b.csx", "n.csx", "-"} : Len(a) < 2 /\ Gives("saveas", "saveas " \o p \o " " \o Word(a), a, SaveAs(ed, disk, IF p = "-" THEN "" ELSE p, a, mesh))
           \/ \E a \in Answers : Gives("close", "close " \o Word(a), a, Close(ed, disk, a, mesh))
           \/ Gives("export", "export", <<>>, {Export(ed, disk)})
           \/ \E p \in {"a.csx", "b.csx", "bad.csx", "-"} : /\ Took("open", "open " \o p, <<>>, Opened(ed, disk, IF p = "-" THEN "" ELSE p)) /\ apart' = apart
                                                           /\ mesh' = IF p = "-" THEN mesh ELSE IF Readable(disk, p) THEN "m0" ELSE ""
           \/ \E m \in Meshes : ed.ld /\ mesh' = m /\ apart' = apart /\ \E e \in Worked(ed, m # mesh) : Took("work", "work", <<>>, R(e, disk, 0, 0))
           \/ \E p \in {"a.csx", "n.csx"}, k \in {"gone", "junk", "doc b.csx"} : /\ (k = "doc b.csx" => Readable(disk, "b.csx")) /\ mesh' = mesh /\ apart' = TRUE
                 /\ Took("put", "put " \o p \o " " \o k, <<>>, R(ed, Put(disk, p, CASE k = "gone" -> none [] k = "junk" -> [k |-> "junk"] [] OTHER -> disk["b.csx"]), 0, 0))
Spec == Init /\ [][Next]_vars
View == <<disk, ed, mesh, last, apart>>
\* what the answers say, in the order of the questions
Answered == [i \in 1..last.asked |-> IF i \in DOMAIN last.a THEN last.a[i] ELSE "C"]
Changed == {p \in DOMAIN disk : disk[p] # At(last.d, p)}
ByUs == n > 0 /\ last.c # "put"
\* a file that was there is only replaced with consent, and only the one file the document goes to changes, and it then holds the document with the mesh shown
Consent == ByUs => \A p \in Changed : /\ last.c \in {"save", "saveas", "close"} /\ p = ed.out /\ Cardinality(Changed) = 1
                                      /\ (At(last.d, p).k # "none" => ed.force \/ (last.asked > 0 /\ Answered[last.asked] = "S"))
                                      /\ disk[p] = D(last.d[last.e.in].b, mesh) /\ \A i \in DOMAIN Answered : Answered[i] = "S"
\* a no leaves every file as it was
NoMeansNo == (ByUs /\ last.asked > 0 /\ Answered[last.asked] # "S") => Changed = {}
\* the window only goes when the work is in a file or the user gave it up
NothingLost == ~ed.open => (last.c = "close" /\ (ed.uns => Answered = <<"X">>))
Honest == (ed.ld /\ ~ed.uns /\ ~apart) => \E p \in DOMAIN disk : disk[p].k = "doc" /\ disk[p].g = mesh
SaidSo == (n > 0 /\ last.c \in {"save", "saveas"} /\ last.e.ld /\ last.told = 0 /\ (\A i \in DOMAIN Answered : Answered[i] = "S") /\ ~(last.c = "saveas" /\ cmd \in {"saveas - ", "saveas - S", "saveas - C", "saveas - X"})) => ~ed.uns
\* without a document there is nothing to save and nothing to ask
NoDocument == (n > 0 /\ ~last.e.ld /\ ByUs) => (Changed = {} /\ last.asked = 0)
TypeOK == ed.uns => ed.ld
=============================================================================

----------------------------- MODULE EditorTrace -----------------------------
(* Validates recorded lives of documents in the real window against Editor. *)
EXTENDS Editor, Json, IOUtils
VARIABLES l, ti
vars == <<l, disk, ed, mesh, ti>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
P(x) == IF x = "-" THEN "" ELSE x
Seen(r) == /\ ed' = r.e /\ SameDisk(r.d, ev.fs) /\ disk' = ev.fs
           /\ ev.asked = r.asked /\ (ev.told > 0) = (r.told > 0)
           /\ ev.shown = r.e.open /\ ev.ld = r.e.ld /\ ev.cs = r.e.ld
Stays == mesh' = mesh /\ ev.gd = mesh
TitleMayFollow(e) == ti' = ev.ti /\ (ev.ti = ti \/ ev.ti = e.name)
Did(S) == \E r \in S : Seen(r) /\ TitleMayFollow(r.e)
Init == l = 1 /\ disk = <<>> /\ ed = <<>> /\ mesh = "" /\ ti = ""
Begin == disk' = ev.fs /\ ed' = [open |-> FALSE] /\ mesh' = "" /\ ti' = ""
Start == /\ ~ed.open
         /\ LET e == Started(P(ev.in), IF ev.out = "-" THEN P(ev.in) ELSE ev.out, ev.force, disk) IN
            Seen(R(e, disk, 0, IF P(ev.in) # "" /\ ~e.ld THEN 1 ELSE 0)) /\ (e.ld => ev.ti = e.name) /\ ti' = ev.ti /\ mesh' = ev.gd
Act == /\ ed.open
       /\ CASE ev.op = "open" -> LET r == Opened(ed, disk, P(ev.f)) IN Seen(r) /\ mesh' = ev.gd /\ (ev.f = "-" => ev.gd = mesh) /\ ti' = ev.ti /\ (IF ev.f # "-" /\ r.e.ld THEN ev.ti = ev.f ELSE TRUE)
            [] ev.op = "save" -> Did(Save(ed, disk, ev.a, mesh, 0)) /\ Stays
            [] ev.op = "saveas" -> Stays /\ \E r \in SaveAs(ed, disk, P(ev.f), ev.a, mesh) : Seen(r) /\ TitleMayFollow(r.e) /\ (ed.ld /\ ev.f # "-" /\ ~r.e.uns => ev.ti = ev.f)
            [] ev.op = "close" -> Did(Close(ed, disk, ev.a, mesh)) /\ Stays
            [] ev.op = "export" -> Did({Export(ed, disk)}) /\ Stays /\ SameFile(ev.handed, Handed(ed, disk, mesh))
            [] ev.op = "look" -> Did({R(ed, disk, 0, 0)}) /\ Stays
            [] ev.op = "put" -> /\ \A p \in (DOMAIN disk \cup DOMAIN ev.fs) \ {ev.f} : SameFile(At(disk, p), At(ev.fs, p))
                                /\ Seen(R(ed, ev.fs, 0, 0)) /\ ti' = ev.ti /\ ti' = ti /\ Stays
            [] OTHER -> (\E e \in Worked(ed, ev.gd # mesh) : Seen(R(e, disk, 0, 0)) /\ TitleMayFollow(e)) /\ mesh' = ev.gd
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ \/ ev.op = "begin" /\ Begin
                \/ ev.op = "start" /\ Start
                \/ ev.op \notin {"begin", "start"} /\ Act
TraceSpec == Init /\ [][TraceNext]_vars
TraceDone == PrintT("TRACE-RESULT matched=" \o ToString(TLCGet("stats").diameter - 1) \o " of=" \o ToString(Len(Trace)))
=============================================================================

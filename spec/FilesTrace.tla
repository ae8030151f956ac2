----------------------------- MODULE FilesTrace -----------------------------
(* Validates recorded runs of the real program on a folder against Files. "begin" gives the folder, which lines are equal,   *)
(* "ref" what the mesher makes of a body with everything said explicitly, "run" a run and the folder after it.               *)
EXTENDS Files, Json, IOUtils
VARIABLES l, fs, cls, memo
vars == <<l, fs, cls, memo>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IF "FOCUS" \in DOMAIN IOEnv THEN IOEnv.FOCUS ELSE "ALL"
F(c) == Focus \in {c, "ALL"}
ev == Trace[l]
Same(a, b) == a.k = b.k /\ a.raw = b.raw
Key0 == [body |-> -1, par |-> None, on |-> <<TRUE, TRUE, TRUE>>, fx |-> Nothing]

Begin == /\ fs' = ev.fs /\ cls' = ev.cls /\ memo' = (Key0 :> [ml |-> NoLines, pol |-> NoLines])
\* the mesher itself: the same result whenever asked
Ref == LET k == [body |-> ev.body, par |-> ev.par, on |-> ev.on, fx |-> Sets(ev.fx)] IN
       /\ k \in DOMAIN memo => memo[k] = ev.r
       /\ memo' = (k :> ev.r) @@ memo
       /\ UNCHANGED <<fs, cls>>
\* the output of a success
Document(c, o, new) == LET s == Saved(c, o) IN
    /\ new.k = "csx"
    /\ F("C19") => (new.body = s.body /\ (o.save => new.x = s.x))
    /\ F("C20") => (new.p = s.p /\ new.x = s.x)
    /\ (F("C22") /\ o.save) => new.p = s.p
    /\ (F("C19") \/ F("C20") \/ F("C22")) => Grid(new.g, memo[Key(c, o)], o, cls)
Output(o, new) == CASE o.fmt = "csx" -> Document(fs[o.in], o, new)
                    [] o.fmt = "plantuml" -> F("C21") => new.k = "uml"
                    [] OTHER -> Same(new, fs[o.out])
Learnt(o, new) == IF o.fmt = "csx" THEN [g |-> new.g, raw |-> new.raw] @@ Saved(fs[o.in], o) ELSE [k |-> new.k, raw |-> new.raw, bad |-> TRUE]
Run == LET o == ev.o  new == ev.fs[o.out]  same == \A n \in DOMAIN fs : Same(ev.fs[n], fs[n])
           others == \A n \in DOMAIN fs \ {o.out} : Same(ev.fs[n], fs[n]) IN
       /\ (F("C21") \/ F("C22")) => (ev.exit = 0) = Succeeds(fs, o)
       /\ (F("C18") /\ ~BadCommand(o) /\ Readable(fs[o.in]) /\ Refuses(fs[o.in], o)) => (ev.exit = 1 /\ ev.said = TRUE)
       /\ F("C21") => (others /\ (ev.exit = 1 => ev.said = TRUE) /\ ev.exit \in {0, 1})
       /\ IF Succeeds(fs, o) THEN Output(o, new)
          ELSE (F("C21") \/ F("C22") \/ F("C18")) => (same \/ Spoilt(fs, o))
       /\ fs' = [n \in DOMAIN fs |-> IF n = o.out /\ Succeeds(fs, o) /\ ToFile(o) /\ ev.exit = 0 /\ (o.fmt = "csx" => new.k = "csx") THEN Learnt(o, new)
                                      ELSE IF Same(ev.fs[n], fs[n]) THEN fs[n] ELSE [k |-> ev.fs[n].k, raw |-> ev.fs[n].raw, bad |-> TRUE]]
       /\ UNCHANGED <<cls, memo>>

TraceInit == l = 1 /\ fs = <<>> /\ cls = <<>> /\ memo = <<>>
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ \/ ev.op = "begin" /\ Begin
                \/ ev.op = "ref" /\ Ref
                \/ ev.op = "run" /\ Run
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceDone == PrintT("TRACE-RESULT matched=" \o ToString(TLCGet("stats").diameter - 1) \o " of=" \o ToString(Len(Trace)))
=============================================================================

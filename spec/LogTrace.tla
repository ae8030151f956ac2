------------------------------ MODULE LogTrace ------------------------------
(* Validates what recording sinks received from the real logger against Log. *)
EXTENDS Log, Json, IOUtils, TLC
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
tvars == <<sinks, inter, gone, l>>
SetOf(s) == {s[i] : i \in DOMAIN s}
TraceInit == sinks = [i \in {} |-> 0] /\ inter = 0 /\ gone = {} /\ l = 1
\* after every command: which sinks still exist, which believe to be the interactive one
Obs == SetOf(ev.alive) = {sinks'[i] : i \in DOMAIN sinks'} /\ SetOf(ev.flagged) = (IF inter' = 0 THEN {} ELSE {sinks'[inter']})
StepBegin == ev.op = "begin" /\ sinks' = [i \in {} |-> 0] /\ inter' = 0 /\ gone' = {}
StepRegister == ev.op = "register" /\ Register(ev.id, ev.sink, ev.wants) /\ ev.got = <<>> /\ Obs
StepSet == ev.op = "set" /\ SetInteractive(ev.id) /\ ev.got = <<>> /\ Obs
\* each receiver once with the very message, nobody else; the answer is the one of who has to answer
StepLog == ev.op = "log" /\ UNCHANGED logv /\ Obs /\ ev.intact
           /\ SetOf(ev.got) = Receivers(ev.id) /\ Len(ev.got) = Cardinality(Receivers(ev.id))
           /\ ev.answer = (IF Answerer(ev.id) = 0 THEN 0 ELSE ev.would[Answerer(ev.id)])
\* the sink of the command line: informations only when verbose, everything else always, on the error output and once;
\* a question is asked until one of the answers offered is typed, or nobody is there to type
Means == ("n" :> "cancel") @@ ("y" :> "ok") @@ ("s" :> "save") @@ ("c" :> "close") @@ ("a" :> "abort")
Offered(i) == ev.typed[i] \in DOMAIN Means /\ Means[ev.typed[i]] \in SetOf(ev.actions)
StepCli == ev.op = "cli" /\ UNCHANGED logv
           /\ LET shown == ev.level # "info" \/ ev.verbose
                  asks == ev.flag /\ ev.level = "question" /\ ev.actions # <<>>
                  good == {i \in DOMAIN ev.typed : Offered(i)}
                  first == CHOOSE i \in good : \A j \in good : i <= j
              IN /\ ev.times = (IF shown THEN 1 ELSE 0)
                 /\ ev.stdout = ""
                 /\ ev.prompts = (IF ~asks THEN 0 ELSE IF good = {} THEN Len(ev.typed) + 1 ELSE first)
                 /\ ev.answer = (IF asks /\ good # {} THEN Means[ev.typed[first]] ELSE "nothing")
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (StepBegin \/ StepRegister \/ StepSet \/ StepLog \/ StepCli)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT("TRACE-RESULT matched=" \o ToString(TLCGet("stats").diameter - 1) \o " of=" \o ToString(Len(Trace)))
=============================================================================

------------------------------- MODULE MCLog -------------------------------
(* Exhaustive exploration of the logger with a few identifiers. *)
EXTENDS Log
CONSTANTS MaxId, MaxSink
VARIABLES n, last
vars == <<sinks, inter, gone, n, last>>
Init == sinks = [i \in {} |-> 0] /\ inter = 0 /\ gone = {} /\ n = 0 /\ last = [c |-> "init"]
MCNext == \/ \E i \in 1..MaxId, w \in BOOLEAN : n < MaxSink /\ Register(i, n + 1, w) /\ n' = n + 1 /\ last' = [c |-> "register", i |-> i, w |-> w]
          \/ \E i \in 0..MaxId : SetInteractive(i) /\ n' = n /\ last' = [c |-> "set", i |-> i, pre |-> inter]
          \/ \E d \in 0..MaxId : UNCHANGED <<sinks, inter, gone, n>> /\ last' = [c |-> "log", d |-> d]
Spec == Init /\ [][MCNext]_vars
\* C23
EachOnceOrOne == last.c = "log" => LET R == Receivers(last.d) IN
    /\ (last.d \in Ids) => R = {sinks[last.d]}
    /\ (last.d \notin Ids) => R = Registered
    /\ R \cap gone = {}
OneAnswer == last.c = "log" => Answerer(last.d) \in Receivers(last.d) \cup {0} /\ (last.d = 0 /\ inter # 0 => Answerer(0) = sinks[inter])
SetWorks == last.c = "set" => inter = IF last.i = 0 \/ last.i \in Ids THEN last.i ELSE last.pre
AskedFor == last.c = "register" /\ last.w => inter = last.i
=============================================================================

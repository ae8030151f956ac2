-------------------------------- MODULE Log --------------------------------
(* The logger: sinks registered under identifiers, at most one of them interactive, and the delivery of messages.        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES sinks,    \* identifier -> the sink registered under it
          inter,    \* identifier of the interactive sink, 0 if none
          gone      \* sinks that were refused: another one had the identifier
logv == <<sinks, inter, gone>>
Ids == DOMAIN sinks
Registered == {sinks[i] : i \in Ids}

SetInteractive(i) == /\ inter' = IF i = 0 THEN 0 ELSE IF i \in Ids THEN i ELSE inter
                     /\ UNCHANGED <<sinks, gone>>
\* the first sink of an identifier stays; asking for it to be the interactive one is about the identifier
Register(i, s, wants) == /\ sinks' = IF i \in Ids THEN sinks ELSE [j \in Ids \cup {i} |-> IF j = i THEN s ELSE sinks[j]]
                         /\ gone' = IF i \in Ids THEN gone \cup {s} ELSE gone
                         /\ inter' = IF wants THEN i ELSE inter
\* a message for a registered sink goes there only, any other one goes everywhere, once
Receivers(d) == IF d # 0 /\ d \in Ids THEN {sinks[d]} ELSE Registered
\* who gives the answer that comes back: 0 is nobody
Answerer(d) == IF d # 0 /\ d \in Ids THEN sinks[d] ELSE IF inter # 0 THEN sinks[inter] ELSE 0
Flagged == IF inter = 0 THEN {} ELSE {sinks[inter]}
LogOK == /\ inter # 0 => inter \in Ids
         /\ Cardinality(Flagged) <= 1
         /\ Registered \cap gone = {}
         /\ \A i, j \in Ids : sinks[i] = sinks[j] => i = j
=============================================================================

----------------------------- MODULE MeshingTrace -----------------------------
(* Recorded runs of the real mesher, step by step, checked against Meshing.    *)
(* b: the board under way, s: its last recorded state.                         *)
EXTENDS Meshing, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
FOCUS == IOEnv.FOCUS
VARIABLES l, b, s
vars == <<l, b, s>>

Focused(p) == FOCUS \in {p, "ALL"}
\* what the sides of the edges have to be (C15)
SidesOK(raw) == \A pl \in Planes : \A k \in DOMAIN raw.pl[pl] :
                  LET g == raw.pl[pl][k] IN Len(g.n) = Len(g.p) /\ \A i \in DOMAIN g.p : g.n[i] = SideOf(g, i)
StepOK(e, u) ==
  CASE e.op = "ADJUST"          -> Focused("C15") => AdjustEdges(b, s, u)
    [] e.op = "ANGLES"          -> Focused("C16") => FindAngles(b, s, u) /\ u.ed = s.ed
    [] e.op = "ZONES"           -> Focused("C16") => FindZones(b, s, u)
    [] e.op = "SOLVE_ANGLES"    -> Focused("C16") => SolveAngles(b, s, u)
    [] e.op = "EIP"             -> Focused("C09") => DetectEip(b, s, u)
    [] e.op = "CE"              -> Focused("C08") => DetectColinear(b, s, u)
    [] e.op = "FIXED"           -> Focused("C10") => AddFixed(b, s, u)
    [] e.op = "SOLVE_EIP"       -> Focused("C09") => SolveEip(b, s, u)
    [] e.op = "SOLVE_CE"        -> Focused("C08") => SolveColinear(b, s, u)
    [] e.op = "INDIV"           -> /\ Focused("C10") => Individual(b, s, u)
                                   /\ Focused("C16") => AnglePolicies(b, s, u)
    [] e.op = "TCMLP"           -> Focused("C11") => MergeClose(b, s, u)
    [] e.op = "INTERVALS"       -> Focused("C12") => MakeIntervals(b, s, u)
    [] e.op = "INTERVALS_ZONES" -> Focused("C16") => AttachIntervals(b, s, u)
    [] e.op = "SOLVE_ZONES"     -> Focused("C16") => RefineZones(b, s, u)
    [] e.op = "MESH"            -> Focused("C13") => MakeMesh(b, s, u)
    [] OTHER -> FALSE
Init == l = 1 /\ b = <<>> /\ s = <<>>
Begin == /\ Trace[l].op = "begin"
         /\ (Focused("C15") => SidesOK(Trace[l])) = TRUE
         /\ b' = Prepare(Trace[l]) /\ s' = <<>>
\* a state recorded after a user's changes
Observe == /\ Trace[l].op = "obs" /\ s' = Trace[l].s /\ b' = b
Do == /\ Trace[l].op \notin {"begin", "obs"}
      /\ StepOK(Trace[l], Trace[l].s) = TRUE   \* (an expression: its disjunctions are not branches)
      /\ s' = Trace[l].s /\ b' = b
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Observe \/ Do)
Spec == Init /\ [][Next]_vars
Report == PrintT("TRACE-RESULT matched=" \o ToString(TLCGet("stats").diameter - 1) \o " of=" \o ToString(Len(Trace)))
=============================================================================

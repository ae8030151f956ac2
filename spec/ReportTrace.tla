----------------------------- MODULE ReportTrace -----------------------------
(* Validates recorded reports of the application against Report: "report" gives the model and both its reports. *)
EXTENDS Report, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
ReportOK == ev.ok /\ ev.intact /\ UmlOK(ev.board, ev.uml) /\ TextOK(ev.board, ev.txt)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ \/ ev.op = "begin"
                \/ ev.op = "report" /\ (ReportOK = TRUE)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT("TRACE-RESULT matched=" \o ToString(TLCGet("stats").diameter - 1) \o " of=" \o ToString(Len(Trace)))
=============================================================================

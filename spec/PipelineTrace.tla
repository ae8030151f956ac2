--------------------------- MODULE PipelineTrace ---------------------------
(* Validates recorded sessions of the application against Pipeline. A trace is a sequence of scenarios ("begin"), each   *)
(* made of several runs of the program ("proc"): sessions, and references ("ref": the steps called one by one on a board *)
(* of its own, without the session machinery).                                                                           *)
EXTENDS Pipeline, Json, IOUtils, TLC
VARIABLES l, memo, gv
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IF "FOCUS" \in DOMAIN IOEnv THEN IOEnv.FOCUS ELSE "ALL"
F(c) == Focus \in {c, "ALL"}
ev == Trace[l]
tvars == <<doc, cur, hist, br, l, memo, gv>>
\* How the views are set: the plane shown and the style of the wires are those of the window; whether the mesh is shown and
\* which items the processing view shows belong to each situation that was shown: it keeps them, or takes those in use.
NoGv == [pl |-> "", wr |-> "", now |-> [mv |-> "", dm |-> ""], ever |-> {}]
TraceInit == doc = NoDoc /\ cur = <<>> /\ hist = <<>> /\ br = 0 /\ l = 1 /\ memo = <<>> /\ gv = NoGv
Fresh == doc' = NoDoc /\ cur' = <<>> /\ hist' = <<>> /\ br' = 0

\* the digest of the model in this situation: the one it always had
Shown(d, p, dg) == LET c == Canon(d, p) IN
    IF c \in DOMAIN memo THEN memo[c] = dg /\ memo' = memo ELSE memo' = (c :> dg) @@ memo
Model == Shown(doc', cur', ev.dg)
Buttons == /\ ev.cu = (br' > 1) /\ ev.cr = (br' < Len(hist'))
           /\ ev.cn = (doc' # NoDoc /\ Next1(cur') <= NS) /\ ev.cp = (Done(cur') > 0)
Obs0 == (IF Focus = "C27" THEN memo' = memo ELSE Model) /\ (Focus \notin {"C06", "C27"} => Buttons)

\* the graphical interface: what its views show and which of its commands are enabled
Gui == "vw" \in DOMAIN ev
Loaded == doc' # NoDoc
GuiOK == Gui => /\ (F("C24") => ev.vw = "" /\ ev.ce = Loaded /\ ev.cs = Loaded)
                /\ ("missing" \notin DOMAIN ev)
                /\ ("dl" \in DOMAIN ev => ev.dl = 1)
Seen == [mv |-> ev.mv, dm |-> ev.dm]
Known(g) == IF g.pl = "" THEN [g EXCEPT !.pl = ev.pl, !.wr = ev.wr] ELSE g   \* a window as it first appears
Clicked(g, n) ==
    LET M(x) == [g EXCEPT !.now.mv = x]  D(x) == [g EXCEPT !.now.dm = x] IN
    CASE n = "tb_plane_xy" -> [g EXCEPT !.pl = "xy"] [] n = "tb_plane_yz" -> [g EXCEPT !.pl = "yz"] [] n = "tb_plane_zx" -> [g EXCEPT !.pl = "zx"]
      [] n = "tb_direct_wires" -> [g EXCEPT !.wr = "direct"] [] n = "tb_curved_wires" -> [g EXCEPT !.wr = "curved"]
      [] n = "tb_show_all_mesh" -> M("all") [] n = "tb_show_no_mesh" -> M("no")
      [] n = "tb_show_horizontal_mesh" -> M("horizontal") [] n = "tb_show_vertical_mesh" -> M("vertical")
      [] n = "tb_show_everything" -> D("everything") [] n = "tb_show_displayed" -> D("displayed") [] n = "tb_show_selected" -> D("selected")
      [] OTHER -> g
Went(g) == IF cur' # cur /\ <<cur', Seen>> \in g.ever THEN [g EXCEPT !.now = Seen] ELSE g
Views == IF ~Gui \/ ~F("C24") \/ ~Loaded THEN gv' = NoGv
         ELSE LET g == CASE ev.op = "open" -> [Known(gv) EXCEPT !.now = Seen, !.ever = {}]
                         [] ev.op = "view" -> Clicked(gv, ev.what)
                         [] ev.op = "same" -> gv
                         [] OTHER -> Went(gv)
              IN /\ ev.pl = g.pl /\ ev.wr = g.wr /\ Seen = g.now
                 /\ gv' = [g EXCEPT !.ever = @ \cup {<<cur', g.now>>}]
Obs == Obs0 /\ GuiOK /\ Views
\* what the progress reports told while the command was carried out
Told(ran, reading) == F("C27") => ReportsOK(ev.pg, ran, reading) /\ \A i \in DOMAIN ev.pg : ev.pg[i].n = NS
StepOpen == ev.op = "open" /\ Told(Steps(1, NS), {0}) /\ Open(ev.doc, ev.ov) /\ Obs
StepBad  == ev.op = "openbad" /\ Refused /\ memo' = memo /\ ev.ms = 1 /\ (F("C24") => Buttons /\ GuiOK) /\ gv' = NoGv
StepNone == ev.op = "none" /\ doc = NoDoc /\ UNCHANGED sess /\ memo' = memo /\ (F("C24") => Buttons /\ GuiOK) /\ gv' = NoGv
StepSame == ev.op = "same" /\ Told(None, {}) /\ UNCHANGED sess /\ Obs /\ ev.ms = 0 /\ (("sel" \in DOMAIN ev /\ F("C24")) => ev.sel = "")
StepView == ev.op = "view" /\ Told(None, {}) /\ UNCHANGED sess /\ Obs /\ ev.ms = 0
StepLoad == ev.op = "load" /\ Told(None, {0}) /\ Load(ev.doc, ev.ov) /\ Obs /\ ev.nt = 1 /\ ev.np = 0 /\ ev.st = 0
StepNext == ev.op = "next" /\ Told(RanNext, {}) /\ RunNext /\ Obs
StepPrev == ev.op = "prev" /\ Told(None, {}) /\ Prev /\ Obs
StepUndo == ev.op = "undo" /\ Told(None, {}) /\ Undo(ev.n) /\ Obs
StepRedo == ev.op = "redo" /\ Told(None, {}) /\ Redo(ev.n) /\ Obs
StepAll  == ev.op = "all" /\ Told(RanAll, {}) /\ RunAll /\ Obs
StepFrom == ev.op = "from" /\ Told(RanFrom(ev.k), {}) /\ From(ev.k) /\ Obs
\* looking at the model while rewound, before running from there: the session itself is described by the "from" that follows
StepBefore == ev.op = "before" /\ Told(None, {}) /\ UNCHANGED sess /\ (IF Focus = "C27" THEN memo' = memo ELSE Shown(doc, Before(cur, ev.k), ev.dg)) /\ gv' = gv
StepEdit == ev.op = "edit" /\ Told(RanFrom(ev.from), {}) /\ Edit(E(ev.key, ev.tg, ev.gl), ev.from) /\ Obs
            \* what is asked for is there at the end, unless steps still to be done before the one that consumes it change it
            /\ ((F("C07") /\ Done(Before(cur, ev.from)) = ev.from - 1) => ev.eff = TRUE)
\* the program run from the command line: it tells its progress when asked to, and nothing otherwise
StepCli  == ev.op = "cli" /\ UNCHANGED sess /\ Told(IF ev.v THEN Steps(1, NS) ELSE None, IF ev.v THEN {0} ELSE {}) /\ memo' = memo /\ gv' = gv
StepRef  == ev.op = "ref" /\ UNCHANGED sess /\ Shown([d |-> ev.doc, ov |-> ev.ov], ev.items, ev.dg) /\ gv' = gv
StepProc == ev.op = "proc" /\ Fresh /\ memo' = memo /\ gv' = NoGv
StepBegin == ev.op = "begin" /\ Fresh /\ memo' = <<>> /\ gv' = NoGv

TraceNext == l <= Len(Trace) /\ l' = l + 1 /\
    (StepBegin \/ StepProc \/ StepLoad \/ StepOpen \/ StepBad \/ StepNone \/ StepSame \/ StepView \/ StepNext \/ StepPrev \/ StepUndo \/ StepRedo \/ StepAll \/ StepFrom \/ StepBefore \/ StepEdit \/ StepRef \/ StepCli)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT("TRACE-RESULT matched=" \o ToString(TLCGet("stats").diameter - 1) \o " of=" \o ToString(Len(Trace)))
=============================================================================

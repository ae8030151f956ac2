---------------------------- MODULE GeometryTrace ----------------------------
(* What the real geometry code answered, checked against the definitions of   *)
(* Geometry.  Coordinates the code computed are recorded scaled by S.         *)
EXTENDS Geometry, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
FOCUS == IOEnv.FOCUS
VARIABLE l
S == 1024
SScale(s) == <<ScalePt(S, s[1]), ScalePt(S, s[2])>>

SegOK(e) ==
  LET s == e.s  t == e.t  r == SegRel(s, t) IN
  /\ e.rel = r /\ e.rev = r
  /\ e.as = AxisOf(s) /\ e.at = AxisOf(t)
  /\ r = "CROSSING" => /\ e.int # <<>> /\ IsMeeting(e.int, S, 1, s, t)
                       /\ e.int2 # <<>> /\ IsMeeting(e.int2, S, 1, s, t)
  /\ Parallel(s, t) => e.int = <<>> /\ e.int2 = <<>>
  /\ r = "OVERLAPPING" =>
       /\ \A o \in {e.ov, e.ov2} : o # <<>> /\ SameSegment(o, SScale(CommonPart(s, t)))
       /\ \A m \in {e.mg, e.mg2} : m # <<>> /\ SameSegment(m, SScale(Union(s, t)))
  /\ (r = "COLINEAR" \/ ~ Parallel(s, t)) => e.ov = <<>> /\ e.ov2 = <<>> /\ e.mg = <<>> /\ e.mg2 = <<>>
  /\ e.mid = <<(s[1][1] + s[2][1]) * (S \div 2), (s[1][2] + s[2][2]) * (S \div 2)>>
  /\ \A i \in DOMAIN e.pts : e.pts[i][2] = OnSegment(e.pts[i][1], s)

DirOf(s) == CASE AxisOf(s) = "H" -> (IF s[2][1] > s[1][1] THEN "XMAX" ELSE "XMIN")
              [] AxisOf(s) = "V" -> (IF s[2][2] > s[1][2] THEN "YMAX" ELSE "YMIN")
              [] OTHER -> "NONE"
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y
MaxOf(X) == CHOOSE x \in X : \A y \in X : x >= y
PolyOK14(e) ==
  /\ e.rot = (IF Area2(e.poly) > 0 THEN "CCW" ELSE "CW")
  /\ LET xs == {e.poly[i][1] : i \in DOMAIN e.poly}  ys == {e.poly[i][2] : i \in DOMAIN e.poly}
     IN e.box = << S * MinOf(xs), S * MaxOf(xs), S * MinOf(ys), S * MaxOf(ys) >>
  /\ Len(e.edges) = Len(e.poly)
  /\ \A i \in DOMAIN e.poly :
       LET s == Edges(e.poly)[i] IN
       /\ <<e.edges[i][1], e.edges[i][2]>> = SScale(s)
       /\ e.edges[i][3] = AxisOf(s) /\ e.edges[i][4] = DirOf(s)
  /\ \A i \in DOMAIN e.pts : e.pts[i][2] = PointRel(e.pts[i][1], e.poly)
PolyOK15(e) ==
  /\ Len(e.edges) = Len(e.poly)
  /\ \A i \in DOMAIN e.poly : e.edges[i][5] = Outward(e.poly, i)

OK(e) == CASE e.k = "seg" -> SegOK(e)
           [] e.k = "poly" -> IF FOCUS = "C14" THEN PolyOK14(e) ELSE PolyOK15(e)
Init == l = 1
Next == l <= Len(Trace) /\ OK(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
Report == PrintT("TRACE-RESULT matched=" \o ToString(TLCGet("stats").diameter - 1) \o " of=" \o ToString(Len(Trace)))
=============================================================================

----------------------------- MODULE TraceOrient -----------------------------
(***************************************************************************)
(* Recorded uses of the implementation's orientation:                      *)
(*   default                     the default orientation                   *)
(*   rotate x a                  rotated in place                          *)
(*   from r u ok                 built from two faces (or refused)         *)
(* each with the faces r, u it then reports and rs, the rotations it says  *)
(* lead to it from the default.                                            *)
(***************************************************************************)
EXTENDS Orientation, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<ori, l>>
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Seen(o) ==
  /\ Trace[l].seen = <<RFace(o), UFace(o)>>
  /\ Through(IdRot, Trace[l].rs) = o
TInit == OInit /\ l = 1
TDefault == IsEvent("default") /\ ori' = IdRot /\ Seen(ori')
TRotate == IsEvent("rotate") /\ ORotate(Trace[l].x, Trace[l].a) /\ Seen(ori')
TFrom ==
  /\ IsEvent("from")
  /\ Trace[l].ok <=> Perpendicular(Trace[l].r, Trace[l].u)
  /\ IF Trace[l].ok
     THEN ori' = FromFaces(Trace[l].r, Trace[l].u) /\ Seen(ori')
     ELSE UNCHANGED ori
TNext == TDefault \/ TRotate \/ TFrom
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

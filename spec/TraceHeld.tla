------------------------------ MODULE TraceHeld ------------------------------
(***************************************************************************)
(* Is a recorded session with an orientable cube a behaviour of Held?      *)
(*   reset | wide f a d | slice x a narrow | rotate x a                    *)
(* each followed by what is seen: obs, the pieces of the base cube, and    *)
(* r, u, the faces at which the orientation puts the original R and U.     *)
(* Depths above 1000 are recorded as 1000.                                 *)
(***************************************************************************)
EXTENDS Held, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<cube, core, l>>
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

OriOf(r, u) == RotIdx(<<r, u, CrossAxis(r, u)>>)
\* the base cube, held in that orientation, is the cube of the model
Seen ==
  LET o == OriOf(Trace[l].r, Trace[l].u) IN
  /\ \A i \in 1..P : ObsT[i][Mult[InvIdx[o]][cube'[i]]] = Trace[l].obs[i]
  /\ Odd => o = core'

TInit == HInit /\ l = 1
TReset == IsEvent("reset") /\ cube' = Solved /\ core' = 1 /\ Seen
TWide == IsEvent("wide") /\ HWide(Trace[l].f, Trace[l].a, Trace[l].d) /\ Seen
TSlice == IsEvent("slice") /\ HSlice(Trace[l].x, Trace[l].a, Trace[l].narrow) /\ Seen
TRotate == IsEvent("rotate") /\ HRotate(Trace[l].x, Trace[l].a) /\ Seen
TNext == TReset \/ TWide \/ TSlice \/ TRotate
TSpec == TInit /\ [][TNext]_tvars
Each == EachOnce(cube)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

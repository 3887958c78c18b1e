----------------------------- MODULE TraceRepair ------------------------------
(***************************************************************************)
(* A recorded history of arrangements of a 3x3x3 and their repairs.        *)
(*   given  edges corners     an arrangement that was made                 *)
(*   fix    kind edges corners   after a repair                            *)
(*   random edges corners     the whole drawing, which repairs             *)
(* edges and corners: place and mark of each piece, in the order in which  *)
(* the cube lists them; the first line, homes, has just the places of the  *)
(* solved cube's.                                                          *)
(***************************************************************************)
EXTENDS Legal, Repair, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
EdgeHomes == Trace[1].edges
CornerHomes == Trace[1].corners
ASSUME { EdgeHomes[i] : i \in 1..Len(EdgeHomes) } = OfKind(3, "edge") /\ Len(EdgeHomes) = 12
ASSUME { CornerHomes[i] : i \in 1..Len(CornerHomes) } = OfKind(3, "corner") /\ Len(CornerHomes) = 8
VARIABLE l
tvars == <<arr, l>>
Ev == Trace[l]
Place(o) == <<o[1], o[2], o[3]>>
At(homes, p) == CHOOSE i \in 1..Len(homes) : homes[i] = p
Here == [cp |-> [i \in 1..8 |-> At(CornerHomes, Place(Ev.corners[i]))],
         ct |-> [i \in 1..8 |-> Twist(Place(Ev.corners[i]), Ev.corners[i][4])],
         ep |-> [i \in 1..12 |-> At(EdgeHomes, Place(Ev.edges[i]))],
         ef |-> [i \in 1..12 |-> 1 - Ev.edges[i][4]]]
Once(p) == { p[i] : i \in 1..Len(p) } = 1..Len(p)
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Blank == [cp |-> [i \in 1..8 |-> i], ct |-> [i \in 1..8 |-> 0], ep |-> [i \in 1..12 |-> i], ef |-> [i \in 1..12 |-> 0]]
TInit == arr = Blank /\ l = 2 /\ Trace[1].e = "homes"
TGiven == IsEvent("given") /\ arr' = Here /\ Once(arr'.cp) /\ Once(arr'.ep)
TFix == IsEvent("fix") /\ Repair(Ev.kind) /\ arr' = Here
TRandom == IsEvent("random") /\ arr' = Here /\ Once(arr'.cp) /\ Once(arr'.ep) /\ Possible(arr')
TNext == TGiven \/ TFix \/ TRandom
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================

----------------------------- MODULE TraceDepth ------------------------------
(***************************************************************************)
(* Recorded lives of wide turns: new m d f a | setdepth d | setmax m |     *)
(* invert | drop, with ok, the turn then seen (turn: [] or [m,d,f,a]) and    *)
(* what a refusal told (told: [] or [d,m]).                                *)
(* widen m d moves ok turns: an alg of face turns widened as a whole.      *)
(***************************************************************************)
EXTENDS Depth, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<wt, ok, l>>
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
T == Trace[l]
Seen == wt' = T.turn /\ ok' = T.ok
TInit == DInit /\ l = 1
TNew == IsEvent("new") /\ New(T.m, T.d, T.f, T.a) /\ T.told = Told(T.d, T.m) /\ Seen
TSetDepth == IsEvent("setdepth") /\ SetDepth(T.d) /\ T.told = Told(T.d, wt[1]) /\ Seen
TSetMax == IsEvent("setmax") /\ SetMax(T.m) /\ T.told = Told(wt[2], T.m) /\ Seen
TInvert == IsEvent("invert") /\ Invert /\ T.told = <<>> /\ Seen
TDrop == IsEvent("drop") /\ wt' = NoTurn /\ Fine
TWiden ==
  /\ IsEvent("widen")
  /\ UNCHANGED dvars
  /\ T.ok <=> (T.moves = <<>> \/ T.d <= T.m)
  /\ T.told = IF T.ok THEN <<>> ELSE Told(T.d, T.m)
  /\ T.ok => T.turns = [i \in DOMAIN T.moves |-> Mk(T.m, T.d, T.moves[i][1], T.moves[i][2])]
TNext == TNew \/ TSetDepth \/ TSetMax \/ TInvert \/ TDrop \/ TWiden
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

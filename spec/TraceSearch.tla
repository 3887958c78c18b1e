------------------------------ MODULE TraceSearch ------------------------------
(***************************************************************************)
(* Answers of the implementation:                                          *)
(*   ask succ targets h start limit found turns at                         *)
(* Right must hold of each.  Same says whether the answer is also the one  *)
(* the specification's own way of looking gives; it is not required.       *)
(***************************************************************************)
EXTENDS Search, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Task == [succ |-> T.succ, targets |-> ToSet(T.targets), h |-> T.h, start |-> T.start, limit |-> T.limit]
TInit == l = 1
TNext == /\ l <= Len(Trace) /\ T.e = "ask" /\ l' = l + 1
         /\ Right(Task, [found |-> T.found, turns |-> T.turns, at |-> T.at])
TSpec == TInit /\ [][TNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

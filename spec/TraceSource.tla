------------------------------ MODULE TraceSource -----------------------------
(***************************************************************************)
(* Recorded draws: kind used got, from many sources that agree for some    *)
(* words, at different times and in different threads.  Every draw agrees  *)
(* with all before it (Source!Agree).                                      *)
(***************************************************************************)
EXTENDS Source, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, book
T == Trace[l]
TInit == l = 1 /\ book = {}
This == [kind |-> T.kind, used |-> T.used, got |-> T.got]
TDraw == /\ l <= Len(Trace) /\ T.e = "draw" /\ l' = l + 1
         /\ \A b \in book : Agree(b, This)
         /\ book' = book \cup {This}
\* draws of one kind are told together
TKind == l <= Len(Trace) /\ T.e = "kind" /\ l' = l + 1 /\ book' = {}
TNext == TDraw \/ TKind
TSpec == TInit /\ [][TNext]_<<l, book>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

----------------------------- MODULE TraceAnswers -----------------------------
(***************************************************************************)
(* Recorded questions and answers: alone, then together in several threads *)
(* or in another process.  Every thread is told what it asked, and all     *)
(* answers there ever are to a question are the same (Answers!Consistent). *)
(***************************************************************************)
EXTENDS Answers, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, asking, book
T == Trace[l]
TInit == l = 1 /\ asking = [t \in 0..8 |-> Idle] /\ book = << >>
At(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
\* what is told alone holds for all that follows, until everything is asked anew
TAlone == At("alone") /\ book' = << >> /\ asking' = [t \in 0..8 |-> Idle]
TTogether == At("together") /\ UNCHANGED <<asking, book>>
TAsk == At("ask") /\ CanAsk(asking, T.t) /\ asking' = [asking EXCEPT ![T.t] = T.q] /\ UNCHANGED book
TTold == /\ At("told") /\ CanTell(asking, T.t, T.q)
         /\ asking' = [asking EXCEPT ![T.t] = Idle]
         /\ IF T.q \in DOMAIN book
              THEN Consistent({<<T.q, book[T.q]>>, <<T.q, T.a>>}) /\ UNCHANGED book
              ELSE book' = (T.q :> T.a) @@ book
TNext == TAlone \/ TTogether \/ TAsk \/ TTold
TSpec == TInit /\ [][TNext]_<<l, asking, book>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

------------------------------- MODULE Depth ---------------------------------
(***************************************************************************)
(* The depth limit of wide turns.  Depths and limits are ordinals in the   *)
(* list Points of interesting numbers (TLC's integers end at 2^31 - 1);    *)
(* only their order matters.                                               *)
(*                                                                         *)
(* wt is the turn at hand: no turn yet, or its limit, depth, face, amount. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* as texts: 0 1 2 3 4 5 6 8 9 10 100 2^31-1 2^31 2^32-2 2^32-1
Points == <<"0", "1", "2", "3", "4", "5", "6", "8", "9", "10", "100", "2147483647", "2147483648", "4294967294", "4294967295">>
Ords == DOMAIN Points
NoTurn == <<>>
Mk(limit, depth, face, amount) == <<limit, depth, face, amount>>
FacesHere == (-3..3) \ {0}

VARIABLES wt, ok
dvars == <<wt, ok>>
DInit == wt = NoTurn /\ ok = TRUE
Fine == ok' = TRUE
Refuse == ok' = FALSE
\* what a refusal names: the depth and the limit it is over (not a variable: it
\* would multiply the states by a hundred)
Told(depth, limit) == IF depth <= limit THEN <<>> ELSE <<depth, limit>>
\* making one: new, random, widening a face turn, parsing
New(limit, depth, f, a) ==
  IF depth <= limit THEN wt' = Mk(limit, depth, f, a) /\ Fine
  ELSE UNCHANGED wt /\ Refuse
SetDepth(depth) ==
  /\ wt # NoTurn
  /\ IF depth <= wt[1] THEN wt' = [wt EXCEPT ![2] = depth] /\ Fine
     ELSE UNCHANGED wt /\ Refuse
\* to another limit; a refused conversion consumes the turn
SetMax(limit) ==
  /\ wt # NoTurn
  /\ IF wt[2] <= limit THEN wt' = [wt EXCEPT ![1] = limit] /\ Fine
     ELSE wt' = NoTurn /\ Refuse
Invert == wt # NoTurn /\ wt' = [wt EXCEPT ![4] = 4 - @] /\ Fine
DNext ==
  \/ \E m, d \in Ords, f \in FacesHere, a \in 1..3 : New(m, d, f, a)
  \/ \E d \in Ords : SetDepth(d) \/ SetMax(d)
  \/ Invert
DSpec == DInit /\ [][DNext]_dvars

Within == wt # NoTurn => wt[2] <= wt[1]
DTypeOK == wt = NoTurn \/ (wt[1] \in Ords /\ wt[2] \in Ords /\ wt[3] \in FacesHere /\ wt[4] \in 1..3)
\* a step changes face and amount only by making or inverting, and a refused
\* change leaves the turn as it was or gone
Refused == [][~ok' => wt' = wt \/ wt' = NoTurn]_dvars
=============================================================================

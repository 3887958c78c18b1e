-------------------------------- MODULE Repair --------------------------------
(***************************************************************************)
(* Arrangements of corners and edges, possible by turning or not, and the  *)
(* three repairs that make any of them possible.                           *)
(*                                                                         *)
(* An arrangement is a record: cp[i], ct[i] the place (a number, the home  *)
(* of corner cp[i]) and the twist of corner i; ep[i], ef[i] the same of    *)
(* edge i and its flip.  A puzzle without edges has empty ep and ef.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Sum(s) == FoldFunction(LAMBDA a, b : a + b, 0, s)
LOCAL INSTANCE Functions

RECURSIVE CycleOf(_, _, _)
CycleOf(perm, start, at) == IF perm[at] = start THEN {at} ELSE {at} \cup CycleOf(perm, start, perm[at])
RECURSIVE CycleCount(_, _)
CycleCount(perm, left) ==
  IF left = {} THEN 0 ELSE LET x == Min(left) IN 1 + CycleCount(perm, left \ CycleOf(perm, x, x))
Odd(perm) == (Len(perm) - CycleCount(perm, 1..Len(perm))) % 2

Twists(x) == Sum(x.ct) % 3
Flips(x) == Sum(x.ef) % 2
Uneven(x) == Len(x.ep) > 1 /\ Odd(x.cp) # Odd(x.ep)

\* can be reached by turning
Possible(x) == Twists(x) = 0 /\ Flips(x) = 0 /\ ~Uneven(x)
\* twelve families of arrangements, of which one is possible
Class(x) == <<Twists(x), Flips(x), Uneven(x)>>

\* exchange the first two edges with their flips
Exchanged(x) == [x EXCEPT !.ep = [@ EXCEPT ![1] = x.ep[2], ![2] = x.ep[1]],
                          !.ef = [@ EXCEPT ![1] = x.ef[2], ![2] = x.ef[1]]]
SwapFixed(x) == IF Uneven(x) THEN Exchanged(x) ELSE x
\* flip the last edge
FlipFixed(x) == IF Flips(x) = 1 THEN [x EXCEPT !.ef[Len(x.ef)] = 1 - @] ELSE x
\* twist the last corner
TwistFixed(x) == [x EXCEPT !.ct[Len(x.ct)] = (@ + 3 - Twists(x)) % 3]

Fixes == {"swap", "flip", "twist"}
Fixed(kind, x) ==
  CASE kind = "swap" -> SwapFixed(x)
    [] kind = "flip" -> FlipFixed(x)
    [] kind = "twist" -> TwistFixed(x)
Repaired(x) == TwistFixed(FlipFixed(SwapFixed(x)))

VARIABLE arr
Repair(kind) == arr' = Fixed(kind, arr)
=============================================================================

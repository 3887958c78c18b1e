------------------------------- MODULE TraceSteps ------------------------------
(***************************************************************************)
(* What the implementation says of distances:                              *)
(*   alone  home obs n         an edge needs n turns alone                 *)
(*   estimate face obs h4      the estimate for the cross of a face, in    *)
(*                             quarters of a turn                          *)
(***************************************************************************)
EXTENDS Cross, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
ObsOf == [i \in 1..Size |-> [g \in 1..NRots |-> Obs(3, Base[i], RotSeq[g])]]
HomeOf(p) == CHOOSE i \in 1..Size : Base[i] = p
StateOf(i, o) == CHOOSE g \in 1..NRots : ObsOf[i][g] = o

\* the turns the four edges of a face need, meeting in the middle: 0..8
Turned4(e, s, m) == [k \in 1..4 |-> Moves[e[k]][m][s[k]]]
RECURSIVE Grow(_, _, _, _)
Grow(e, seen, front, n) ==
  IF n = 0 THEN seen
  ELSE LET new == { Turned4(e, s, m) : s \in front, m \in 1..18 } \ seen
       IN  Grow(e, seen \cup new, new, n - 1)
\* is the cross within n turns?
Within(e, s, n) ==
  n >= 0 /\ Grow(e, {s}, {s}, n - (n \div 2)) \cap Grow(e, {<<1, 1, 1, 1>>}, {<<1, 1, 1, 1>>}, n \div 2) # {}

TInit == l = 1
Is2(k) == l <= Len(Trace) /\ T.e = k /\ l' = l + 1
Lone == Is2("alone") /\ LET i == HomeOf(T.home) IN Steps[i][StateOf(i, T.obs)] = T.n
Estimate ==
  /\ Is2("estimate")
  /\ LET e == Edges(T.face)
         s == [k \in 1..4 |-> StateOf(e[k], T.obs[e[k]])]
         least == (T.h4 + 3) \div 4         \* the estimate, rounded up
     IN  /\ T.h4 >= 0
         /\ (T.h4 = 0) <=> (s = <<1, 1, 1, 1>>)
         /\ ~Within(e, s, least - 1)
TNext == Lone \/ Estimate
TSpec == TInit /\ [][TNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

-------------------------------- MODULE Search --------------------------------
(***************************************************************************)
(* Looking for a target in a graph of states and turns.                    *)
(*                                                                         *)
(* A task is a record                                                      *)
(*   succ     for each state 1..n its turns in order: <<turn, state>>      *)
(*   targets  the set of target states                                     *)
(*   h        for each state an estimate, in quarters of a turn            *)
(*            (Unreach: infinite)                                          *)
(*   start, limit                                                          *)
(* What an answer must be is Right.  Answer is how the library looks:      *)
(* depth first within a bound on turns made plus estimate, the bound       *)
(* raised by at most one turn each time.  MCSearch shows it to be Right.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Unit == 4
Unreach == 1000000
States(k) == DOMAIN k.succ
NextsOf(k, s) == { k.succ[s][i][2] : i \in DOMAIN k.succ[s] }
Min2(a, b) == IF a < b THEN a ELSE b

(* ------------------------- least numbers of turns ---------------------- *)
RECURSIVE Wave(_, _, _, _)
\* how many turns to the nearest target, by waves outwards from a set
Wave(k, front, seen, d) ==
  IF front \cap k.targets # {} THEN d
  ELSE LET nxt == (UNION { NextsOf(k, s) : s \in front }) \ seen IN
       IF nxt = {} THEN Unreach ELSE Wave(k, nxt, seen \cup nxt, d + 1)
Least(k, s) == Wave(k, {s}, {s}, 0)

Admissible(k) == \A s \in States(k) : LET d == Least(k, s) IN d # Unreach => k.h[s] <= Unit * d
WholeValued(k) == \A s \in States(k) : k.h[s] = Unreach \/ k.h[s] % Unit = 0

(* ------------------------------- answers -------------------------------- *)
None == [found |-> FALSE, turns |-> <<>>, at |-> 0]
Found(turns, at) == [found |-> TRUE, turns |-> turns, at |-> at]

\* where turns lead; 0 when one of them is not to be had
RECURSIVE Walk(_, _, _)
Walk(k, s, turns) ==
  IF turns = <<>> THEN s
  ELSE IF \E i \in DOMAIN k.succ[s] : k.succ[s][i][1] = Head(turns)
       THEN Walk(k, (k.succ[s][CHOOSE i \in DOMAIN k.succ[s] : k.succ[s][i][1] = Head(turns)])[2], Tail(turns))
       ELSE 0

Right(k, a) ==
  LET d == Least(k, k.start) IN
  IF a.found
  THEN /\ Walk(k, k.start, a.turns) = a.at
       /\ a.at \in k.targets
       /\ Admissible(k) => Len(a.turns) = d
       /\ k.start \in k.targets => a.turns = <<>>
  ELSE /\ k.start \notin k.targets
       /\ (Admissible(k) /\ WholeValued(k)) => d > k.limit

(* --------------------- how the library goes about it -------------------- *)
\* within a bound, from the end of path: Found, or None with the least cost
\* that went beyond
RECURSIVE Deepen(_, _, _, _), Try(_, _, _, _, _)
Deepen(k, path, bound, least) ==
  LET s == path[Len(path)]
      cost == IF k.h[s] = Unreach THEN Unreach ELSE Unit * (Len(path) - 1) + k.h[s]
  IN  IF cost > bound THEN [ans |-> None, least |-> Min2(least, cost)]
      ELSE IF s \in k.targets THEN [ans |-> Found(<<>>, s), least |-> least]
      ELSE Try(k, path, bound, least, 1)
Try(k, path, bound, least, i) ==
  LET s == path[Len(path)] IN
  IF i > Len(k.succ[s]) THEN [ans |-> None, least |-> least]
  ELSE LET t == k.succ[s][i] IN
       IF \E j \in DOMAIN path : path[j] = t[2] THEN Try(k, path, bound, least, i + 1)
       ELSE LET r == Deepen(k, Append(path, t[2]), bound, least) IN
            IF r.ans.found THEN [r EXCEPT !.ans.turns = <<t[1]>> \o @]
            ELSE Try(k, path, bound, r.least, i + 1)
RECURSIVE Rounds(_, _, _)
Rounds(k, bound, left) ==
  IF left = 0 THEN None
  ELSE LET r == Deepen(k, <<k.start>>, bound, Min2(bound + Unit, Unreach)) IN
       IF r.ans.found THEN r.ans ELSE Rounds(k, r.least, left - 1)
Answer(k) == Rounds(k, k.h[k.start], k.limit + 1)
=============================================================================

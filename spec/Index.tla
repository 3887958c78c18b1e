-------------------------------- MODULE Index --------------------------------
(***************************************************************************)
(* Numbering the arrangements of k pieces over m places, each piece in one *)
(* of b orientations; with det the last piece's orientation follows from   *)
(* the others (the sum is a multiple of b).  Places are 0..m-1.            *)
(*                                                                         *)
(* What a numbering must be is IsNumbering: any bijection onto             *)
(* 0..Size-1 will do.  Rank is one (the reading in factorial base), shown  *)
(* to be one by MCIndex, which also shows that Size counts them.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE Falling(_, _)
Falling(m, k) == IF k = 0 THEN 1 ELSE m * Falling(m - 1, k - 1)
RECURSIVE Power(_, _)
Power(b, k) == IF k = 0 THEN 1 ELSE b * Power(b, k - 1)
FreeTurns(k, det) == IF det THEN k - 1 ELSE k
Size(k, m, b, det) == Falling(m, k) * Power(b, FreeTurns(k, det))

Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
IsArrangement(places, twists, k, m, b, det) ==
  /\ Len(places) = k /\ Len(twists) = k
  /\ \A i \in 1..k : places[i] \in 0..(m - 1) /\ twists[i] \in 0..(b - 1)
  /\ \A i, j \in 1..k : places[i] = places[j] => i = j
  /\ det => Sum(twists) % b = 0

(* -------- one numbering: mixed radix over the places still free --------- *)
FreeBelow(places, i) == Cardinality({ p \in 0..(places[i] - 1) : \A j \in 1..(i - 1) : places[j] # p })
RECURSIVE RankPlaces(_, _, _)
RankPlaces(places, i, m) ==
  IF i > Len(places) THEN 0
  ELSE FreeBelow(places, i) * Falling(m - i, Len(places) - i) + RankPlaces(places, i + 1, m)
RECURSIVE RankTwists(_, _, _)
RankTwists(twists, n, b) == IF n = 0 THEN 0 ELSE RankTwists(twists, n - 1, b) * b + twists[n]
Rank(places, twists, m, b, det) ==
  RankPlaces(places, 1, m) * Power(b, FreeTurns(Len(places), det))
    + RankTwists(twists, FreeTurns(Len(places), det), b)

NthFree(used, n) ==
  CHOOSE p \in 0..(n + Cardinality(used)) : p \notin used /\ Cardinality({ q \in 0..(p - 1) : q \notin used }) = n
RECURSIVE UnrankPlaces(_, _, _, _)
UnrankPlaces(r, k, m, used) ==
  IF k = 0 THEN <<>>
  ELSE LET w == Falling(m - Cardinality(used) - 1, k - 1)
           p == NthFree(used, r \div w)
       IN  <<p>> \o UnrankPlaces(r % w, k - 1, m, used \cup {p})
RECURSIVE UnrankTwists(_, _, _)
UnrankTwists(r, n, b) == IF n = 0 THEN <<>> ELSE Append(UnrankTwists(r \div b, n - 1, b), r % b)
Unrank(r, k, m, b, det) ==
  LET t == Power(b, FreeTurns(k, det))
      tw == UnrankTwists(r % t, FreeTurns(k, det), b)
  IN  << UnrankPlaces(r \div t, k, m, {}),
         IF det THEN Append(tw, (b - (Sum(tw) % b)) % b) ELSE tw >>
=============================================================================

------------------------------- MODULE PieceSet -------------------------------
(***************************************************************************)
(* A set of pieces: one piece per home, in the order of homes.             *)
(*                                                                         *)
(* A piece is <<place, mark>>.  Two pieces are told apart by what a type   *)
(* calls their equality: by both, or (as a type may) by the mark alone.    *)
(* The set is as it should be when no two pieces are at one place and no   *)
(* two are equal.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Same(by, p, q) == IF by = "both" THEN p = q ELSE p[2] = q[2]
\* the indices of pieces that are not alone at their place, or not unlike all others
Crowded(s) == { i \in 1..Len(s) : \E j \in 1..Len(s) : j # i /\ s[j][1] = s[i][1] }
Alike(by, s) == { i \in 1..Len(s) : \E j \in 1..Len(s) : j # i /\ Same(by, s[i], s[j]) }
Proper(by, s) == Crowded(s) = {} /\ Alike(by, s) = {}

IndexOf(homes, h) == CHOOSE i \in 1..Len(homes) : homes[i] = h
\* the piece whose home is h
PieceFrom(homes, s, h) == s[IndexOf(homes, h)]
\* the homes of the pieces at a place: one at most if the set is proper
HomesOf(homes, s, place) == { homes[i] : i \in { k \in 1..Len(s) : s[k][1] = place } }
Swapped(homes, s, a, b) ==
  LET i == IndexOf(homes, a)
      j == IndexOf(homes, b)
  IN  [s EXCEPT ![i] = s[j], ![j] = s[i]]
\* the same pieces in any order
Times(s, p) == Cardinality({ i \in 1..Len(s) : s[i] = p })
Reordered(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Times(s, s[i]) = Times(t, s[i])
=============================================================================

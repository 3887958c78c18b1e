------------------------------ MODULE MCPieceSet ------------------------------
(***************************************************************************)
(* Everything that can be done to small sets of pieces, from every proper  *)
(* set, for both kinds of equality.                                        *)
(***************************************************************************)
EXTENDS PieceSet
CONSTANTS Homes,    \* a sequence of places
          Places,   \* all places, some perhaps nobody's home
          Marks
VARIABLES set, by, kept   \* kept: nobody has changed a piece behind the set's back
vars == <<set, by, kept>>
Pieces == Places \X Marks
Moves == { f \in [Places -> Places] : \A p, q \in Places : p # q => f[p] # f[q] }
Init == by \in {"both", "mark"} /\ set \in { s \in [1..Len(Homes) -> Pieces] : Proper(by, s) } /\ kept = TRUE
H3 == <<3, 1, 4>>
H4 == <<3, 1, 4, 2>>
Hs == { Homes[i] : i \in 1..Len(Homes) }
Swap == \E a, b \in Hs : set' = Swapped(Homes, set, a, b)
Shuffle == \E f \in Permutations(1..Len(Homes)) : set' = [i \in 1..Len(Homes) |-> set[f[i]]]
\* moves take places to places, and marks somewhere
Move == \E f \in Moves, k \in 0..1 :
          set' = [i \in 1..Len(Homes) |-> <<f[set[i][1]], IF k = 0 THEN set[i][2] ELSE (set[i][2] + 1) % Cardinality(Marks)>>]
Put == \E i \in 1..Len(Homes), p \in Pieces : set' = [set EXCEPT ![i] = p]
Next == /\ by' = by
        /\ \/ (Swap \/ Shuffle \/ Move) /\ kept' = kept
           \/ Put /\ kept' = FALSE
Spec == Init /\ [][Next]_vars

Kept == kept => Proper(by, set)
AtHome == \A i \in 1..Len(Homes) : set[i][1] \in Hs
Lookups == Proper(by, set) =>
  /\ \A h \in Hs : HomesOf(Homes, set, PieceFrom(Homes, set, h)[1]) = {h}
  /\ \A p \in Places : \A h \in HomesOf(Homes, set, p) : PieceFrom(Homes, set, h)[1] = p
  /\ AtHome => \A p \in Hs : Cardinality(HomesOf(Homes, set, p)) = 1
Swapping == \A a, b \in Hs :
  LET t == Swapped(Homes, set, a, b) IN
  /\ Swapped(Homes, t, a, b) = set /\ Swapped(Homes, set, b, a) = t
  /\ PieceFrom(Homes, t, a) = PieceFrom(Homes, set, b)
  /\ PieceFrom(Homes, t, b) = PieceFrom(Homes, set, a)
  /\ \A h \in Hs \ {a, b} : PieceFrom(Homes, t, h) = PieceFrom(Homes, set, h)
  /\ Reordered(set, t)
\* equal pieces of one place are both kinds of duplicate at once
Found == Crowded(set) \cup Alike(by, set) = {} <=> Proper(by, set)
=============================================================================

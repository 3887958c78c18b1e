------------------------------- MODULE MCDrawn --------------------------------
(***************************************************************************)
(* All draws of algs of a given length.                                    *)
(***************************************************************************)
EXTENDS Drawn, TLC
CONSTANT Long
VARIABLE groups
Init == groups = <<>>
Done == SizeOf(groups) >= Long
Next == ~Done /\ \E c \in NextOf(groups) : groups' = Append(groups, c)
Spec == Init /\ [][Next]_groups
Word == Cut(groups, Long)
\* as long as asked for, without redundancy
Exact == Done => Len(Word) = Long /\ ~Redundant(Word)
\* the word tells what was drawn, but for what is cut off: read axis by axis
Axiswise(w) == NF(w)
Told == Done => LET r == Axiswise(Word) IN
  /\ Len(r) = Len(groups)
  /\ \A k \in 1..Len(groups) : From(groups, k) <= Long - 1 => r[k] = groups[k]
\* nothing but the draws before it decides among how many a draw is: so what starts at any place of the word but the
\* last is, whatever came before, any of 45 or 30 with the same chance
Even == Cardinality(NextOf(groups)) = (IF groups = <<>> THEN 45 ELSE 30)
\* every word without redundancy can be drawn
RECURSIVE Irredundant(_)
Irredundant(n) == IF n = 0 THEN {<<>>} ELSE { w \in { Append(v, t) : v \in Irredundant(n - 1), t \in AllTurns } : ~Redundant(w) }
\* up to the order of the two faces of an axis
ASSUME { NF(w) : w \in Irredundant(2) } =
  LET one == { <<c>> : c \in Combined }
      two == UNION { { Append(g, c) : c \in NextOf(g) } : g \in one }
  IN  { NF(Cut(g, 2)) : g \in { h \in one \cup two : SizeOf(h) >= 2 } }
=============================================================================

------------------------------- MODULE MCSource -------------------------------
(***************************************************************************)
(* Draws by all trees of Depth over two words and two results, from two    *)
(* sources at once that may be taken back to their start or have anything  *)
(* else at each place.  What they give is Decided; and once a draw that    *)
(* remembers anything (gives another result, or stops elsewhere, than its  *)
(* words decide) is seen together with an honest one of the same words, it *)
(* is not.                                                                 *)
(***************************************************************************)
EXTENDS Source, TLC
CONSTANTS Depth, Most
Words == {0, 1}
Results == {"p", "q"}
Leaf(r) == [leaf |-> TRUE, got |-> r, next |-> <<>>]
RECURSIVE Trees(_)
Trees(d) ==
  { Leaf(r) : r \in Results } \cup
  (IF d = 0 THEN {} ELSE LET T == Trees(d - 1) IN
     { [leaf |-> FALSE, got |-> "", next |-> <<a, b>>] : a \in T, b \in T })
AllTrees == Trees(Depth)
Rows == [1..Depth -> Words]
\* what a tree makes of a row
RECURSIVE Reading(_, _, _)
Reading(t, row, used) ==
  IF t.leaf THEN [used |-> used, got |-> t.got]
  ELSE LET w == row[Len(used) + 1] IN Reading(t.next[w + 1], row, Append(used, w))

VARIABLES tree, book, lies
vars == <<tree, book, lies>>
Init == tree \in AllTrees /\ book = {} /\ lies = {}
Rec(d) == [kind |-> "k", used |-> d.used, got |-> d.got]
Draw == \E row \in Rows : book' = book \cup {Rec(Reading(tree, row, <<>>))} /\ UNCHANGED <<tree, lies>>
\* another result for the same words
Lie == \E row \in Rows, r \in Results :
  LET d == Reading(tree, row, <<>>) IN
  /\ d.got # r
  /\ lies' = lies \cup {[kind |-> "k", used |-> d.used, got |-> r]}
  /\ UNCHANGED <<tree, book>>
\* the same, having read less
Stop == \E row \in Rows, r \in Results, n \in 0..(Depth - 1) :
  LET d == Reading(tree, row, <<>>) IN
  /\ n < Len(d.used)
  /\ lies' = lies \cup {[kind |-> "k", used |-> SubSeq(d.used, 1, n), got |-> r]}
  /\ UNCHANGED <<tree, book>>
Next == Cardinality(lies) < Most /\ (Draw \/ Lie \/ Stop)
Spec == Init /\ [][Next]_vars

Honest == Decided(book)
Seen == \A x \in lies :
  (\E h \in book : IsBeginning(x.used, h.used)) => ~Decided(book \cup {x})
\* nothing else is refused: every set of draws that is Decided is some tree's
RECURSIVE Follows(_, _, _)
Follows(t, d, i) ==
  IF t.leaf THEN i = Len(d.used) + 1 /\ d.got = t.got
  ELSE i <= Len(d.used) /\ Follows(t.next[d.used[i] + 1], d, i + 1)
Whole == Decided(lies) /\ (\A d \in lies : Len(d.used) <= Depth)
           => \E t \in AllTrees : \A d \in lies : Follows(t, d, 1)
=============================================================================

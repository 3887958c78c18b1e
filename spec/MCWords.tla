------------------------------- MODULE MCWords -------------------------------
(***************************************************************************)
(* All words up to a length, each with its normal form built turn by turn, *)
(* and a combined move fed the same turns.                                 *)
(***************************************************************************)
EXTENDS Words, TLC
CONSTANT MaxLen
VARIABLES word, nform
vars == <<word, nform>>
Init == word = <<>> /\ nform = <<>>
Do(t) == Len(word) < MaxLen /\ word' = Append(word, t) /\ nform' = Push(nform, t)
Next == \E t \in AllTurns : Do(t)
Spec == Init /\ [][Next]_vars

Proper == \A i \in DOMAIN nform : nform[i] \in Combined /\ (i > 1 => nform[i][1] # nform[i - 1][1])
\* the spelled normal form is a normalised form, stays so, and none is longer
Canonical ==
  LET v == Spell(nform) IN IsNormalised(word, v) /\ NF(v) = nform /\ Len(v) <= Len(word)
\* a word is as long as its normal form exactly when it has no redundancy
Irredundant == ~Redundant(word) <=> SizeOf(nform) = Len(word)
\* a word and then its inverse cancel completely
Cancels == NF(word \o InverseWord(word)) = <<>> /\ NF(InverseWord(word) \o word) = <<>>
\* the relations: quarter turns add up, opposite faces commute, four make none
Relations ==
  /\ \A f \in (-3..3) \ {0} :
       /\ Push(Push(nform, <<f, 1>>), <<f, 1>>) = Push(nform, <<f, 2>>)
       /\ Push(Push(nform, <<f, 1>>), <<f, 2>>) = Push(nform, <<f, 3>>)
       /\ Push(Push(nform, <<f, 3>>), <<f, 1>>) = nform
  /\ \A x \in 1..3, a, b \in 1..3 :
       Push(Push(nform, <<x, a>>), <<-x, b>>) = Push(Push(nform, <<-x, b>>), <<x, a>>)

(* combined moves, complete *)
ASSUME \A c \in Combined \cup {NoMove} : \A t \in AllTurns :
  /\ Take(c, t) \in Combined \cup {NoMove}
  /\ Takes(c, t) => NF(Parts(Take(c, t))) = NF(Append(Parts(c), t))
  /\ ~Takes(c, t) => Take(c, t) = c
  /\ How(c, t) = "refused" <=> ~Takes(c, t)
  /\ Takes(c, t) => Len(Parts(Take(c, t))) = Len(Parts(c)) +
        (CASE How(c, t) \in {"new", "added"} -> 1 [] How(c, t) = "absorbed" -> 0 [] OTHER -> -1)
ASSUME Cardinality(Combined) = 45
ASSUME \A c \in Combined : ~Redundant(Parts(c)) /\ NF(Parts(c)) = <<c>>
=============================================================================

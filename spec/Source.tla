-------------------------------- MODULE Source --------------------------------
(***************************************************************************)
(* Draws from sources of chance.  A source is an endless row of words; a   *)
(* draw of a kind reads some of them and gives a result.  What a draw gives*)
(* and how much it reads is decided by the words it reads and by nothing   *)
(* else: not by earlier draws, other sources, threads, or the time.        *)
(*                                                                         *)
(* A draw of a kind is thus a tree: at each node a word is read and tells  *)
(* which way to go on, at a leaf is the result.  Of two draws of a kind    *)
(* one can neither stop where the other read on after the same words, nor  *)
(* give another result after the same words.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
\* draws: [kind, used, got]
IsBeginning(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]
Agree(a, b) ==
  a.kind = b.kind /\ (IsBeginning(a.used, b.used) \/ IsBeginning(b.used, a.used))
     => a.used = b.used /\ a.got = b.got
Decided(draws) == \A a, b \in draws : Agree(a, b)
=============================================================================

-------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* Sequences of face turns as words, their normal form, and combined       *)
(* moves.  A turn is <<f, a>>: face f turned by a quarter turns (1..3).    *)
(*                                                                         *)
(* The only relations used: turns of one face add up, turns of opposite    *)
(* faces commute.  MCPiece shows that both hold on every cube (Amounts,    *)
(* SameAxisCommute).                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

AbsF(f) == IF f < 0 THEN -f ELSE f
AllTurns == { <<f, a>> : f \in (-3..3) \ {0}, a \in 1..3 }
InverseTurn(t) == <<t[1], 4 - t[2]>>
InverseWord(w) == [i \in DOMAIN w |-> InverseTurn(w[Len(w) + 1 - i])]

\* two turns of one face with only turns of that axis between them
Redundant(w) ==
  \E i, j \in DOMAIN w : i < j /\ w[i][1] = w[j][1] /\ \A k \in i..j : AbsF(w[k][1]) = AbsF(w[i][1])

(* -------- combined moves: all turns of one axis, <<axis, p, n>> --------- *)
\* p, n: quarter turns of the face on the positive and negative end, not both 0
Combined == { <<x, p, n>> : x \in 1..3, p \in 0..3, n \in 0..3 } \ { <<x, 0, 0>> : x \in 1..3 }
NoMove == <<>>
AsCombined(t) == IF t[1] > 0 THEN <<t[1], t[2], 0>> ELSE <<-t[1], 0, t[2]>>
Normal(c) == IF c[2] = 0 /\ c[3] = 0 THEN NoMove ELSE c
Merge(c, t) ==
  Normal(IF t[1] > 0 THEN <<c[1], (c[2] + t[2]) % 4, c[3]>> ELSE <<c[1], c[2], (c[3] + t[2]) % 4>>)

\* taking a turn into a combined move: what becomes of it, and how it went
Takes(c, t) == c = NoMove \/ c[1] = AbsF(t[1])
Take(c, t) == IF c = NoMove THEN AsCombined(t) ELSE IF Takes(c, t) THEN Merge(c, t) ELSE c
How(c, t) ==
  IF c = NoMove THEN "new"
  ELSE IF ~Takes(c, t) THEN "refused"
  ELSE LET here == IF t[1] > 0 THEN c[2] ELSE c[3]
       IN  IF here = 0 THEN "added" ELSE IF (here + t[2]) % 4 = 0 THEN "collapsed" ELSE "absorbed"

\* the turns a combined move stands for, positive end first
Parts(c) ==
  IF c = NoMove THEN <<>>
  ELSE (IF c[2] = 0 THEN <<>> ELSE << <<c[1], c[2]>> >>) \o (IF c[3] = 0 THEN <<>> ELSE << <<-c[1], c[3]>> >>)

(* -------------- normal form: a sequence of combined moves --------------- *)
Push(nf, t) ==
  IF nf # <<>> /\ nf[Len(nf)][1] = AbsF(t[1])
  THEN LET c == Merge(nf[Len(nf)], t) IN IF c = NoMove THEN Front(nf) ELSE [nf EXCEPT ![Len(nf)] = c]
  ELSE Append(nf, AsCombined(t))
NF(w) == FoldLeft(Push, <<>>, w)
Spell(nf) == FoldLeft(LAMBDA acc, c : acc \o Parts(c), <<>>, nf)
SizeOf(nf) == Len(Spell(nf))

\* a normalised form of w: same normal form, no redundancy
IsNormalised(w, v) == NF(v) = NF(w) /\ ~Redundant(v)

(* ----------------------- other spellings of a word ---------------------- *)
\* quarter turns <<f, +1>> or <<f, -1>>; a double turn is two in one direction
RECURSIVE Quarters(_, _)
Quarters(w, q) ==
  IF w = <<>> THEN q = <<>>
  ELSE LET t == Head(w)
           k == IF t[2] = 2 THEN 2 ELSE 1
       IN  /\ Len(q) >= k
           /\ \A i \in 1..k : q[i][1] = t[1] /\ q[i][2] = q[1][2]
           /\ t[2] = 1 => q[1][2] = 1
           /\ t[2] = 3 => q[1][2] = -1
           /\ Quarters(Tail(w), SubSeq(q, k + 1, Len(q)))
=============================================================================

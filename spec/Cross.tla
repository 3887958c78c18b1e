-------------------------------- MODULE Cross --------------------------------
(***************************************************************************)
(* The cross of a face on the 3x3x3: its four edges, the rest forgotten.   *)
(*                                                                         *)
(* Edges(f) are the homes of the four.  A state gives for each the         *)
(* rotation it has undergone (an edge has 24 states, told apart by its     *)
(* rotation); it is written as one number.  Steps are the turns one edge    *)
(* needs alone.                                                            *)
(***************************************************************************)
EXTENDS CubeDefs

Base == HomeSeqOf(3)
Size == Len(Base)
At == [i \in 1..Size |-> [g \in 1..NRots |-> CHOOSE j \in 1..Size : Base[j] = Apply(RotSeq[g], Base[i])]]
Is == [i \in 1..Size |-> Kind(3, Base[i])]
On == [f \in SAxes |-> [i \in 1..Size |-> InTurn(3, Base[i], f, 0)]]
\* the four edges of a face
Edges(f) == SelectSeq([i \in 1..Size |-> i], LAMBDA i : Is[i] = "edge" /\ On[f][i])

\* the eighteen turns: three of each face
TurnFace(m) == FaceSeq[((m - 1) \div 3) + 1]
TurnAmount(m) == (((m - 1) % 3) + 1)
\* what turn m makes of the edge of home i in state g
Moves == [i \in 1..Size |-> [m \in 1..18 |-> [g \in 1..NRots |->
            IF On[TurnFace(m)][At[i][g]] THEN Mult[FaceRotIdx[TurnFace(m)][TurnAmount(m)]][g] ELSE g]]]

Code(a, b, c, d) == ((((a - 1) * 24 + (b - 1)) * 24) + (c - 1)) * 24 + (d - 1)
Part(s, k) ==
  ((CASE k = 1 -> s \div 13824 [] k = 2 -> (s \div 576) % 24 [] k = 3 -> (s \div 24) % 24 [] k = 4 -> s % 24) + 1)
MadeOf(t, m, s) ==
  Code(t[1][m][Part(s, 1)], t[2][m][Part(s, 2)], t[3][m][Part(s, 3)], t[4][m][Part(s, 4)])
Crossed == 0       \* no edge rotated: the cross

RECURSIVE Ripples(_, _, _)
Ripples(i, done, seen) ==
  LET new == { Moves[i][m][g] : m \in 1..18, g \in done[Len(done)] } \ seen
  IN  IF new = {} THEN done ELSE Ripples(i, Append(done, new), seen \cup new)
\* how many turns bring the edge of home i home from state g
Steps == [i \in { j \in 1..Size : Is[j] = "edge" } |->
            LET r == Ripples(i, <<{1}>>, {1})
            IN  [g \in 1..NRots |-> (CHOOSE d \in DOMAIN r : g \in r[d]) - 1]]
=============================================================================

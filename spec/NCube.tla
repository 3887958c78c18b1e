-------------------------------- MODULE NCube --------------------------------
(***************************************************************************)
(* The whole n x n x n cube as a state machine.                            *)
(*                                                                         *)
(* cube[i] is the index (in RotSeq) of the rotation that piece i, of home  *)
(* Hs[i], has undergone.  The tables below are Geometry and CubeDefs       *)
(* evaluated once, so that long behaviours are cheap to check.             *)
(***************************************************************************)
EXTENDS Legal
CONSTANT N

Hs == HomeSeqOf(N)
P  == Len(Hs)
ObsT   == [i \in 1..P |-> [g \in 1..NRots |-> Obs(N, Hs[i], RotSeq[g])]]
WhereT == [i \in 1..P |-> [g \in 1..NRots |-> CHOOSE j \in 1..P : Hs[j] = Apply(RotSeq[g], Hs[i])]]
InTurnT == [d \in 0..MaxDepth(N) |-> [f \in SAxes |-> [i \in 1..P |-> InTurn(N, Hs[i], f, d)]]]
SolvedT == [i \in 1..P |-> [g \in 1..NRots |-> LooksSolved(N, Hs[i], RotSeq[g])]]
TwistT == [i \in 1..P |-> [g \in 1..NRots |-> TwistOf(N, Hs[i], RotSeq[g])]]
FlipT  == [i \in 1..P |-> [g \in 1..NRots |-> FlipOf(N, Hs[i], RotSeq[g])]]
KindT  == [i \in 1..P |-> Kind(N, Hs[i])]

Solved == [i \in 1..P |-> 1]
\* does every sticker show the colour of its face?
IsSolved(c) == \A i \in 1..P : SolvedT[i][c[i]]
Observe(c) == [i \in 1..P |-> ObsT[i][c[i]]]

\* the turn of face f by a quarter turns reaching depth d
Turned(c, f, a, d) ==
  [i \in 1..P |->
     IF InTurnT[d][f][WhereT[i][c[i]]] THEN Mult[FaceRotIdx[f][a]][c[i]] ELSE c[i]]

RECURSIVE TurnedAll(_, _)
TurnedAll(c, ms) ==
  IF ms = <<>> THEN c
  ELSE TurnedAll(Turned(c, Head(ms).f, Head(ms).a, Head(ms).d), Tail(ms))

InverseTurn(m) == [m EXCEPT !.a = 4 - m.a]
ReversedAlg(ms) == [k \in 1..Len(ms) |-> InverseTurn(ms[Len(ms) + 1 - k])]

\* every place holds exactly one piece
EachOnce(c) == Cardinality({ WhereT[i][c[i]] : i \in 1..P }) = P

Legal(c) ==
  LET cs == { i \in 1..P : KindT[i] = "corner" }
      es == { i \in 1..P : KindT[i] = "edge" }
  IN /\ EachOnce(c)
     /\ FoldSet(LAMBDA i, acc : acc + TwistT[i][c[i]], 0, cs) % 3 = 0
     /\ FoldSet(LAMBDA i, acc : acc + FlipT[i][c[i]], 0, es) % 2 = 0
     /\ N = 3 => Parity([i \in cs |-> WhereT[i][c[i]]]) = Parity([i \in es |-> WhereT[i][c[i]]])

VARIABLE cube
CubeInit == cube = Solved
Turn(f, a, d) == cube' = Turned(cube, f, a, d)
Next == \E f \in SAxes, a \in 1..3, d \in 0..MaxDepth(N) : Turn(f, a, d)
CubeSpec == CubeInit /\ [][Next]_cube
=============================================================================

--------------------------------- MODULE Held --------------------------------
(***************************************************************************)
(* The n x n x n cube in the hand.  cube[i] is the rotation of piece i as  *)
(* seen by whoever holds the cube; core is the rotation of the core, that  *)
(* is of the fixed centres, where there are any (odd n).  Every move names *)
(* layers by their place in the hand.                                      *)
(***************************************************************************)
EXTENDS NCube

CONSTANT MaxLayers      \* depths from here on are not told apart
ASSUME MaxLayers >= N

VARIABLE core
hvars == <<cube, core>>

Odd == N % 2 = 1
\* HTurnT[d + 1][f][place]
HTurnT == [d \in 0..MaxLayers |-> [f \in SAxes |-> [i \in 1..P |-> InTurn(N, Hs[i], f, d)]]]
CoreTurns(f, d) == Odd /\ InTurn(N, <<0, 0, 0>>, f, d)

SliceT == [nr \in BOOLEAN |-> [x \in Axes |-> [i \in 1..P |-> InSlice(N, Hs[i], x, nr)]]]

MoveThose(c, r, moves(_)) == [i \in 1..P |-> IF moves(WhereT[i][c[i]]) THEN Mult[r][c[i]] ELSE c[i]]

HInit == CubeInit /\ core = 1
HWide(f, a, d) ==
  LET r == FaceRotIdx[f][a]
      dd == IF d > MaxLayers THEN MaxLayers ELSE d
  IN
  /\ cube' = MoveThose(cube, r, LAMBDA w : HTurnT[dd][f][w])
  /\ core' = IF CoreTurns(f, dd) THEN Mult[r][core] ELSE core
HFace(f, a) == HWide(f, a, 0)
HSlice(x, a, narrow) ==
  LET r == AxisRotIdx[x][a] IN
  /\ cube' = MoveThose(cube, r, LAMBDA w : SliceT[narrow][x][w])
  /\ core' = IF Odd THEN Mult[r][core] ELSE core
HRotate(x, a) ==
  LET r == AxisRotIdx[x][a] IN
  /\ cube' = [i \in 1..P |-> Mult[r][cube[i]]]
  /\ core' = Mult[r][core]
\* the base cube that, held in orientation o, is what is seen in the hand
BaseOf(c, o) == [i \in 1..P |-> Mult[InvIdx[o]][c[i]]]
\* solved: held in the default orientation, every sticker on its own face
HandSolved(c, o) == o = 1 /\ IsSolved(BaseOf(c, o))
HNext ==
  \/ \E f \in SAxes, a \in 1..3, d \in 0..MaxLayers : HWide(f, a, d)
  \/ \E x \in Axes, a \in 1..3, nr \in BOOLEAN : HSlice(x, a, nr)
  \/ \E x \in Axes, a \in 1..3 : HRotate(x, a)
HSpec == HInit /\ [][HNext]_hvars
=============================================================================

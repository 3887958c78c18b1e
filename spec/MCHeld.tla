-------------------------------- MODULE MCHeld -------------------------------
(***************************************************************************)
(* One piece of the held cube, in every state, under every held move; and  *)
(* the design the implementation uses: a base cube that is never rotated,  *)
(* an orientation, and moves past the middle done from the other side.     *)
(* Everything depends on the place of the piece and on products from the   *)
(* left, so one home of each class of homes under rotation stands for all. *)
(***************************************************************************)
EXTENDS NCube
CONSTANT AllHomes
VARIABLES home, base, held     \* home, rotation in the base frame, orientation (indices)
mvars == <<cube, home, base, held>>

ClassOf(i) == { WhereT[i][g] : g \in 1..NRots }
Reps == { i \in 1..P : \A j \in ClassOf(i) : i <= j }

TurnT == [d \in 0..(N + 1) |-> [f \in SAxes |-> [i \in 1..P |-> InTurn(N, Hs[i], f, d)]]]
SliceT == [nr \in BOOLEAN |-> [x \in Axes |-> [i \in 1..P |-> InSlice(N, Hs[i], x, nr)]]]
BaseFaceT == [oo \in 1..NRots |-> [f \in SAxes |-> Img(RotSeq[InvIdx[oo]], f)]]

\* the piece as seen in the hand
Hand(bb, oo) == Mult[oo][bb]

\* a turn of the base cube, within its capacity
BaseTurn(bb, f, a, d) == IF InTurnT[d][f][WhereT[home][bb]] THEN Mult[FaceRotIdx[f][a]][bb] ELSE bb

\* what the hand does, physically
WideHand(g, f, a, d) == IF TurnT[d][f][WhereT[home][g]] THEN Mult[FaceRotIdx[f][a]][g] ELSE g
SliceHand(g, x, a, nr) == IF SliceT[nr][x][WhereT[home][g]] THEN Mult[AxisRotIdx[x][a]][g] ELSE g

\* how it is done with base cube and orientation: <<base', held'>>
WideDone(f, a, d) ==
  LET o2 == Mult[FaceRotIdx[f][a]][held] IN
  IF d + 1 >= N THEN <<base, o2>>
  ELSE IF d <= N - d - 2 THEN <<BaseTurn(base, BaseFaceT[held][f], a, d), held>>
  ELSE <<BaseTurn(base, BaseFaceT[o2][-f], a, N - d - 2), o2>>
SliceDone(x, a, narrow) ==
  LET d == IF narrow THEN MaxDepth(N) ELSE 0
      b1 == BaseTurn(base, BaseFaceT[held][x], 4 - a, d)
      b2 == BaseTurn(b1, BaseFaceT[held][-x], a, d)
  IN  <<b2, Mult[AxisRotIdx[x][a]][held]>>

Init == home \in (IF AllHomes THEN 1..P ELSE Reps) /\ base = 1 /\ held = 1 /\ cube = <<>>
To(p) == base' = p[1] /\ held' = p[2] /\ UNCHANGED <<home, cube>>
Wide == \E f \in SAxes, a \in 1..3, d \in 0..(N + 1) : To(WideDone(f, a, d))
Slice == \E x \in Axes, a \in 1..3, nr \in BOOLEAN : To(SliceDone(x, a, nr))
Rotate == \E x \in Axes, a \in 1..3 : To(<<base, Mult[AxisRotIdx[x][a]][held]>>)
HeldNext == Wide \/ Slice \/ Rotate
Spec == Init /\ [][HeldNext]_mvars

WideIsPhysical == \A f \in SAxes, a \in 1..3, d \in 0..(N + 1) :
  LET w == WideDone(f, a, d) IN Hand(w[1], w[2]) = WideHand(Hand(base, held), f, a, d)
SliceIsPhysical == \A x \in Axes, a \in 1..3, nr \in BOOLEAN :
  LET s == SliceDone(x, a, nr) IN Hand(s[1], s[2]) = SliceHand(Hand(base, held), x, a, nr)
\* the base cube is only ever turned within its capacity
Capacity == \A d \in 0..(N - 2) : Min2(d, N - d - 2) \in 0..MaxDepth(N)
\* turning everything is rotating, and undoing a held move is the inverse one
AllLayers == \A f \in SAxes, a \in 1..3 : WideHand(Hand(base, held), f, a, N - 1) = Mult[FaceRotIdx[f][a]][Hand(base, held)]
Undo ==
  /\ \A f \in SAxes, a \in 1..3, d \in 0..(N + 1) :
       WideHand(WideHand(Hand(base, held), f, a, d), f, 4 - a, d) = Hand(base, held)
  /\ \A x \in Axes, a \in 1..3, nr \in BOOLEAN :
       SliceHand(SliceHand(Hand(base, held), x, a, nr), x, 4 - a, nr) = Hand(base, held)
\* a rotation is a slice between two face turns; even cubes have no middle layer
SliceAndSides == \A x \in Axes, a \in 1..3 :
  WideHand(WideHand(SliceHand(Hand(base, held), x, a, FALSE), x, a, 0), -x, 4 - a, 0)
    = Mult[AxisRotIdx[x][a]][Hand(base, held)]
NoMiddle == N % 2 = 0 => \A x \in Axes, a \in 1..3 : SliceHand(Hand(base, held), x, a, TRUE) = Hand(base, held)
\* held in the default orientation with every sticker of the base cube on its own face is, for a
\* cube with fixed centres, every side in the hand showing only its own colour
OwnColours(g) == \A s \in Stickers(N, Hs[home]) : Img(RotSeq[g], s) = s
CentresOwn == \A f \in SAxes : Img(RotSeq[held], f) = f
SolvedInHand == (held = 1 /\ SolvedT[home][base]) <=> (CentresOwn /\ OwnColours(Hand(base, held)))
Reached == TLCGet("stats").distinct = (IF AllHomes THEN P ELSE Cardinality(Reps)) * NRots * NRots
=============================================================================

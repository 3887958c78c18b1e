-------------------------------- MODULE MCNet ---------------------------------
(***************************************************************************)
(* What turning does to the picture: as many squares of each colour; a turn   *)
(* changes no square but those of its layer, twists the face's own square  *)
(* round by a quarter and keeps every sticker: the square of a sticker     *)
(* after the turn is the one its own rotation takes it to.                 *)
(***************************************************************************)
EXTENDS Net
CONSTANT Most
VARIABLES before, by, far
nvars == <<cube, before, by, far>>
ASSUME NetFacts
NInit == CubeInit /\ before = Solved /\ by = <<>> /\ far = 0
NNext == /\ far < Most /\ far' = far + 1
         /\ \E f \in SAxes, a \in 1..3 : Turn(f, a, 0) /\ by' = <<f, a>>
         /\ before' = cube
NSpec == NInit /\ [][NNext]_nvars

Nine == LET sq == Squares(cube) IN
  \A x \in SAxes : Cardinality({ q \in SAxes \X (1..N) \X (1..N) : sq[q[1]][q[2]][q[3]] = x }) = N * N
\* the square to which a rotation of space takes a square
Moved(r, f, row, col) ==
  LET g == Img(r, f)
      p == Apply(r, PlaceOf(f, row, col))
  IN  CHOOSE q \in {g} \X (1..N) \X (1..N) : PlaceOf(q[1], q[2], q[3]) = p
Follows == far > 0 =>
  LET old == Squares(before)
      new == Squares(cube)
      r == FaceRot(by[1], by[2])
  IN  \A q \in SAxes \X (1..N) \X (1..N) :
        IF InTurn(N, PlaceOf(q[1], q[2], q[3]), by[1], 0)
        THEN LET m == Moved(r, q[1], q[2], q[3]) IN new[m[1]][m[2]][m[3]] = old[q[1]][q[2]][q[3]]
        ELSE new[q[1]][q[2]][q[3]] = old[q[1]][q[2]][q[3]]
SolvedLooks == IsSolved(cube) <=> (Squares(cube) = Squares(Solved))
=============================================================================

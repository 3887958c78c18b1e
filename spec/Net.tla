--------------------------------- MODULE Net ----------------------------------
(***************************************************************************)
(* The picture of a 3x3x3: its six faces unfolded into one sheet of paper  *)
(*                                                                         *)
(*       U                                                                 *)
(*     L F R                                                               *)
(*       D                                                                 *)
(*       B                                                                 *)
(*                                                                         *)
(* and that sheet printed, square by square.  A colour is named by the     *)
(* face (signed axis) of the solved cube that has it.                      *)
(***************************************************************************)
EXTENDS NCube, Sheet

PlaceOf(f, r, c) == PlaceUnder(N, f, r, c)
\* its number among the homes; 0 for the middle of the face
SquareT == [f \in SAxes |-> [r \in 1..N |-> [c \in 1..N |->
              IF \E i \in 1..P : Hs[i] = PlaceOf(f, r, c) THEN CHOOSE i \in 1..P : Hs[i] = PlaceOf(f, r, c) ELSE 0]]]
\* the colour that a piece in state g shows on face f
ShowsT == [g \in 1..NRots |-> [f \in SAxes |-> Img(RotSeq[InvIdx[g]], f)]]

\* the squares of cube c, each face by rows
ColourAt(c, f, r, k) ==
  LET p == SquareT[f][r][k] IN
  IF p = 0 THEN f ELSE ShowsT[c[CHOOSE i \in 1..P : WhereT[i][c[i]] = p]][f]
Squares(c) == [f \in SAxes |-> [r \in 1..N |-> [k \in 1..N |-> ColourAt(c, f, r, k)]]]

(* ------------------------------ the sheet ------------------------------- *)
FaceAt(row, col) == FaceOn(N, row, col)
Rows == RowsOf(N)
Cols == ColsOf(N)
Sheet(c) == SheetOf(N, Squares(c))

(* --------------------- facts about it, evaluated at start ---------------- *)
NetFacts ==
  /\ SheetFacts(N)
  \* every sticker has its square
  /\ \A f \in SAxes : { SquareT[f][r][k] : r \in 1..N, k \in 1..N } \ {0} = { i \in 1..P : Sgn(f) * Hs[i][Abs(f)] = N - 1 }
  /\ Squares(Solved) = [f \in SAxes |-> [r \in 1..N |-> [k \in 1..N |-> f]]]
=============================================================================

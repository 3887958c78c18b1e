-------------------------------- MODULE Sheet ---------------------------------
(***************************************************************************)
(* The unfolded sheet of an n x n x n cube: which place of the cube is     *)
(* under which square of which face, and which face is where on the sheet. *)
(*       U                                                                 *)
(*     L F R                                                               *)
(*       D                                                                 *)
(*       B                                                                 *)
(***************************************************************************)
EXTENDS Geometry

\* which way is right and which down on each face of the sheet, seen from outside
RightOf == [f \in SAxes |-> CASE f \in {2, 3, -2, -3} -> 1 [] f = -1 -> 3 [] f = 1 -> -3]
DownOf == [f \in SAxes |-> CASE f \in {3, 1, -1} -> -2 [] f = 2 -> 3 [] f = -2 -> -3 [] f = -3 -> 2]

Unit(s) == [j \in Axes |-> IF j = Abs(s) THEN Sgn(s) ELSE 0]
Plus(p, q, k) == [j \in Axes |-> p[j] + k * q[j]]
\* the place under the square of a face in row r, column c, in half edges of a small cube
PlaceUnder(n, f, r, c) ==
  LET o == [j \in Axes |-> (n - 1) * Unit(f)[j]]
      v == Plus(Plus(o, Unit(DownOf[f]), 2 * r - n - 1), Unit(RightOf[f]), 2 * c - n - 1)
  IN  <<v[1], v[2], v[3]>>

RowsOf(n) == 4 * n + 3
ColsOf(n) == 3 * n + 2
\* the face whose square is in that row and column of the sheet; 0 where there is none
FaceOn(n, row, col) ==
  LET band == (row - 1) \div (n + 1)
      side == (col - 1) \div (n + 1)
  IN  IF row % (n + 1) = 0 \/ col % (n + 1) = 0 THEN 0
      ELSE CASE band = 1 /\ side = 0 -> -1
             [] band = 1 /\ side = 2 -> 1
             [] side = 1 -> <<2, 3, -2, -3>>[band + 1]
             [] OTHER -> 0
SheetOf(n, sq) ==
  [row \in 1..RowsOf(n) |-> [col \in 1..ColsOf(n) |->
     LET f == FaceOn(n, row, col) IN
     IF f = 0 THEN 0 ELSE sq[f][((row - 1) % (n + 1)) + 1][((col - 1) % (n + 1)) + 1]]]

(* ------------------------------- facts --------------------------------- *)
SheetFacts(n) ==
  \* seen from outside: right, down and inwards are right-handed
  /\ \A f \in SAxes : CrossAxis(RightOf[f], DownOf[f]) = -f
  \* the squares of a face are over all its places, once each
  /\ \A f \in SAxes : Cardinality({ PlaceUnder(n, f, r, c) : r \in 1..n, c \in 1..n }) = n * n
  \* where two faces meet on the sheet, they meet on the cube
  /\ \A k \in 1..n : /\ PlaceUnder(n, 2, n, k) = PlaceUnder(n, 3, 1, k)
                     /\ PlaceUnder(n, 3, n, k) = PlaceUnder(n, -2, 1, k)
                     /\ PlaceUnder(n, -2, n, k) = PlaceUnder(n, -3, 1, k)
                     /\ PlaceUnder(n, -1, k, n) = PlaceUnder(n, 3, k, 1)
                     /\ PlaceUnder(n, 3, k, n) = PlaceUnder(n, 1, k, 1)
=============================================================================

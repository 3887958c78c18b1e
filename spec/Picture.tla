------------------------------- MODULE Picture --------------------------------
(***************************************************************************)
(* A picture of S x S squares per face as something to paint on.           *)
(* pic[f][r][c] is the colour there.  Pieces of a 3x3x3 in any state can   *)
(* be painted into it: corners into the corners of the faces and, where S  *)
(* is odd, edges into the middles of their sides; nothing else changes.    *)
(* A square can be asked for, and painted, by a point near it.             *)
(***************************************************************************)
EXTENDS Net
CONSTANT S
ASSUME N = 3 /\ S > 1
VARIABLE pic
pvars == <<cube, pic>>
Grid == [r \in 1..S |-> [c \in 1..S |-> 0]]
Fresh == [f \in SAxes |-> [r \in 1..S |-> [c \in 1..S |-> f]]]

\* the square of the picture for each square of the 3x3x3's
Wide(k) == CASE k = 1 -> 1 [] k = 2 -> (S + 1) \div 2 [] k = 3 -> S
\* squares of the pieces of a kind
OfSort(kind, f, r, c) == SquareT[f][r][c] # 0 /\ KindT[SquareT[f][r][c]] = kind
Paintable(kind) == kind = "corner" \/ (kind = "edge" /\ S % 2 = 1)
Filled(p, kind, c) ==
  LET sq == Squares(c)
      from == [f \in SAxes |-> { <<r, k>> \in (1..3) \X (1..3) : OfSort(kind, f, r, k) }]
  IN  [f \in SAxes |-> [r \in 1..S |-> [k \in 1..S |->
         LET m == { q \in from[f] : Wide(q[1]) = r /\ Wide(q[2]) = k } IN
         IF m = {} THEN p[f][r][k] ELSE LET q == CHOOSE q \in m : TRUE IN sq[f][q[1]][q[2]]]]]
Painted(p, f, r, k, col) == [p EXCEPT ![f][r][k] = col]

\* Points in fifths of the distance between neighbouring squares, counted from the middle of the
\* picture; a point up to a fifth off the middle of a square is that square's.
NearRow(v) == { r \in 1..S : Abs(2 * v - 5 * (2 * r - S - 1)) <= 2 }
\* components along the directions right and down of a face
Along(p, s) == Sgn(s) * p[Abs(s)]
SquareAt(f, p) == NearRow(Along(p, DownOf[f])) \X NearRow(Along(p, RightOf[f]))

PicInit == CubeInit /\ pic = Fresh
Fill(kind) == Paintable(kind) /\ pic' = Filled(pic, kind, cube) /\ UNCHANGED cube
Paint(f, r, k, col) == pic' = Painted(pic, f, r, k, col) /\ UNCHANGED cube
=============================================================================

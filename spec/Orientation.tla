----------------------------- MODULE Orientation -----------------------------
(***************************************************************************)
(* Which way a cube is held: the rotation it has undergone since it was    *)
(* held with its R face right and its U face up.                           *)
(***************************************************************************)
EXTENDS Geometry

\* where the original R and U faces are
RFace(o) == Img(o, 1)
UFace(o) == Img(o, 2)
Perpendicular(a, b) == Abs(a) # Abs(b)

\* the orientation in which R is at r and U at u
FromFaces(r, u) == <<r, u, CrossAxis(r, u)>>

RECURSIVE Through(_, _)
\* a list of rotations [x |-> axis, a |-> amount], applied in order
Through(o, rs) ==
  IF rs = <<>> THEN o
  ELSE Through(Comp(RotAbout(Head(rs).x, Head(rs).a), o), Tail(rs))

VARIABLE ori
OInit == ori = IdRot
ORotate(x, a) == ori' = Comp(RotAbout(x, a), ori)
ONext == \E x \in Axes, a \in 1..3 : ORotate(x, a)
OSpec == OInit /\ [][ONext]_ori

OTypeOK == ori \in Rots
OPerp == Perpendicular(RFace(ori), UFace(ori))
OFaces == FromFaces(RFace(ori), UFace(ori)) = ori
\* the six faces are where they are because of two of them
OKnown == \A s \in SAxes : Img(ori, s) \in SAxes /\ Img(ori, -s) = -Img(ori, s)
\* at most two rotations lead anywhere
OTwo == \E x, y \in Axes, a, b \in 0..3 : Comp(RotAbout(y, b), RotAbout(x, a)) = ori
OReturns == \A x \in Axes, a \in 1..3 :
  Through(ori, << [x |-> x, a |-> a], [x |-> x, a |-> 4 - a] >>) = ori
\* all 24 are reached: each perpendicular pair of faces is one of them
OAll == \A r, u \in SAxes : Perpendicular(r, u) => FromFaces(r, u) \in Rots
=============================================================================

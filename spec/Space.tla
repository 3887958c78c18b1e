-------------------------------- MODULE Space --------------------------------
(***************************************************************************)
(* The vocabulary of faces, axes, directions, rotations and places: what   *)
(* each question about them has to answer.  Everything is derived from the *)
(* group of rotations of space (Geometry) and the pieces (CubeDefs).       *)
(***************************************************************************)
EXTENDS CubeDefs

Dirs == {1, -1}
Amounts == 1..3
Signs == { <<x, y, z>> : x \in Dirs, y \in Dirs, z \in Dirs }
Unit(s) == [j \in Axes |-> IF j = Abs(s) THEN Sgn(s) ELSE 0]
Dot(p, q) == p[1] * q[1] + p[2] * q[2] + p[3] * q[3]

(* ------------------------------- axes ----------------------------------- *)
NextAxis(x) == CHOOSE y \in Axes : CrossAxis(x, y) > 0
PrevAxis(x) == CHOOSE y \in Axes : CrossAxis(y, x) > 0
\* the way from x to y is 0, 1 or 2 steps forward
Offset(x, y) == IF x = y THEN 0 ELSE IF CrossAxis(x, y) > 0 THEN 1 ELSE 2
\* 1 if x, y and the third axis are right-handed in this order, 0 if parallel
Handed(x, y) == Sgn(CrossAxis(x, y))
Third(x, y) == Abs(CrossAxis(x, y))
Along(x, hand) == IF hand > 0 THEN NextAxis(x) ELSE PrevAxis(x)
\* the two other axes such that the three are right-handed in this order
Basis(x) == CHOOSE b \in Axes \X Axes : CrossAxis(b[1], b[2]) = x

(* ------------------------------ amounts --------------------------------- *)
Directed(a, d) == IF d > 0 THEN a ELSE 4 - a
Added(a, b) == (a + b) % 4              \* 0: they cancel

(* ------------------------------- faces ---------------------------------- *)
OnFace(f, p) == Dot(Unit(f), p) > 0
FacesOf(p) == { s \in SAxes : OnFace(s, p) }

(* ------------------------------ corners --------------------------------- *)
\* A third of a turn about the outward diagonal of corner p, counterclockwise
\* seen from outside: v, its image and p are right-handed.
Third3(p) ==
  CHOOSE r \in Rots : /\ r # IdRot /\ Apply(r, p) = p
                      /\ OnFace(CrossAxis(1, Img(r, 1)), p)
Twisted(p, x) == Abs(Img(Third3(p), x))
\* how many of those bring the U/D sticker where it is
TwistsOf(p, x) ==
  CHOOSE k \in 0..2 : x = Abs(Img(Pow(Third3(p), k), 2))
CornerSpots == { <<p, x>> : p \in Signs, x \in Axes }

(* ------------------------------- edges ---------------------------------- *)
EdgePlaces == { p \in [Axes -> {-1, 0, 1}] : Cardinality(Zero(p)) = 1 }
EdgeHomes == { <<2*p[1], 2*p[2], 2*p[3]>> : p \in EdgePlaces }
EdgeSpots == { Obs(3, h, IdRot) : h \in EdgeHomes } \cup
             { [Obs(3, h, IdRot) EXCEPT ![4] = 0] : h \in EdgeHomes }
Normal(p) == CHOOSE i \in Zero(p) : TRUE
\* the spot of an edge after rotation r: whichever edge it is
EdgeAfter(o, r) ==
  LET who == CHOOSE w \in EdgeHomes \X Rots : Obs(3, w[1], w[2]) = o
  IN  Obs(3, who[1], Comp(r, who[2]))
Quarters == { RotAbout(x, a) : x \in Axes, a \in Amounts }
EdgeTable == TLCEval([o \in EdgeSpots |-> [r \in Quarters |-> EdgeAfter(o, r)]])
\* does a rotation change the mark of the edges in the slice normal to n?
Flips(r, n) ==
  \E o \in EdgeSpots : o[n] = 0 /\ EdgeTable[o][r][4] # o[4]
MarkFace(p) == CHOOSE s \in FacesOf(p) : Abs(s) = EdgeMarkAxis(p)
OtherFace(p) == CHOOSE s \in FacesOf(p) : s # MarkFace(p)
\* the edge place between two faces (0: none)
Between(a, b) ==
  [j \in Axes |-> IF j = Abs(a) THEN Sgn(a) ELSE IF j = Abs(b) THEN Sgn(b) ELSE 0]

(* ------------------ facts about the above, for TLC ---------------------- *)
SpaceFacts ==
  /\ GroupFacts
  /\ \A x \in Axes : Basis(x) = <<NextAxis(x), PrevAxis(x)>>
  /\ \A x, y \in Axes : Offset(x, y) = (y - x + 3) % 3
  \* turning about a face, written as a rotation about its axis
  /\ \A f \in SAxes, a \in Amounts : FaceRot(f, a) = RotAbout(Abs(f), Directed(a, Sgn(f)))
  \* turning a turned face is the turn seen from the turned cube
  /\ \A r \in Rots, f \in SAxes, a \in Amounts :
        FaceRot(Img(r, f), a) = Comp(r, Comp(FaceRot(f, a), InvRot(r)))
  /\ \A x \in Axes, a, b \in Amounts :
        Comp(RotAbout(x, a), RotAbout(x, b)) = RotAbout(x, Added(a, b))
  \* a corner's three faces follow each other, and twisting has order three
  /\ \A p \in Signs : Cardinality(FacesOf(p)) = 3 /\ Pow(Third3(p), 3) = IdRot
  /\ \A s \in CornerSpots : TwistsOf(s[1], Twisted(s[1], s[2])) = (TwistsOf(s[1], s[2]) + 1) % 3
  \* a corner's mark is that of every corner that can be there
  /\ \A p \in Signs, g \in Rots, r \in Quarters :
        LET o == Obs(2, p, g)
            q == Obs(2, p, Comp(r, g))
        IN  q[4] = Abs(Img(r, o[4]))
  \* where an edge's mark goes does not depend on which edge it is
  /\ Cardinality(EdgeSpots) = 24
  /\ \A h \in EdgeHomes, g \in Rots, r \in Quarters :
        Obs(3, h, Comp(r, g)) = EdgeTable[Obs(3, h, g)][r]
  \* ... and whether it changes depends only on the slice it is in
  /\ \A o \in EdgeSpots, r \in Quarters :
        (EdgeTable[o][r][4] # o[4]) = Flips(r, Normal(o))
=============================================================================

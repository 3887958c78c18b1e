------------------------------ MODULE CubeDefs ------------------------------
(***************************************************************************)
(* The pieces ("cubies") of an n x n x n cube and what a turn does to one. *)
(*                                                                         *)
(* Coordinates are doubled so that every layer has an integer coordinate:  *)
(* the layers along an axis are at -(n-1), -(n-3), ..., n-1.  A cubie is   *)
(* named by its HOME, the place it has on the solved cube.  Its state is   *)
(* an element g of the rotation group: it now sits at g applied to its     *)
(* home, and the sticker it carried on face s now shows on face g(s).      *)
(* Fixed centres (odd n, middle of a face) never leave their face under    *)
(* the turns of this module and are left out.                              *)
(***************************************************************************)
EXTENDS Geometry

Coords(n) == { c \in (1-n)..(n-1) : (c + n - 1) % 2 = 0 }
Outer(n, p) == { i \in Axes : Abs(p[i]) = n - 1 }
Zero(p)  == { i \in Axes : p[i] = 0 }

IsFixedCentre(n, p) == Cardinality(Outer(n, p)) = 1 /\ Cardinality(Zero(p)) = 2

Homes(n) ==
  { p \in { <<x, y, z>> : x \in Coords(n), y \in Coords(n), z \in Coords(n) } :
      Outer(n, p) # {} /\ ~IsFixedCentre(n, p) }

\* depth of coordinate c measured from its own side: 0 = outermost layer
DepthOf(n, c) == (n - 1 - Abs(c)) \div 2

\* the inner (non-outer) coordinates of p, as depths in increasing order
InnerDepths(n, p) ==
  SetToSortSeq({ DepthOf(n, p[i]) : i \in Axes \ Outer(n, p) }, LAMBDA a, b : a < b)

Kind(n, p) ==
  LET o == Cardinality(Outer(n, p)) IN
  CASE o = 3 -> "corner"
    [] o = 2 /\ Zero(p) # {} -> "edge"
    [] o = 2 -> "wing"
    [] o = 1 /\ Zero(p) # {} -> "cedge"
    [] o = 1 /\ Cardinality({Abs(p[i]) : i \in Axes \ Outer(n, p)}) = 1 -> "ccorner"
    [] OTHER -> "cwing"

\* An orbit is a kind together with the depths of its inner coordinates.
Orbit(n, p) ==
  CASE Kind(n, p) \in {"corner", "edge"} -> <<Kind(n, p)>>
    [] Kind(n, p) = "cedge" ->
         <<"cedge", DepthOf(n, p[CHOOSE i \in Axes \ Outer(n, p) : p[i] # 0])>>
    [] OTHER -> <<Kind(n, p)>> \o InnerDepths(n, p)

\* the stickers of a piece at home p: the faces it shows on
Stickers(n, p) == { Sgn(p[i]) * i : i \in Outer(n, p) }

(* ------------------------------- turns --------------------------------- *)
\* is the place p in the depth+1 outermost layers on the side of face f?
InTurn(n, p, f, depth) == Sgn(f) * p[Abs(f)] >= n - 1 - 2 * depth

MaxDepth(n) == n \div 2 - 1

\* a slice turn along axis x moves all layers but the outermost two or, when
\* narrow, only the middle one (even sizes have none)
InSlice(n, p, x, narrow) == IF narrow THEN p[x] = 0 ELSE Abs(p[x]) < n - 1

\* moves as records; amount counts clockwise quarter turns
Turns(n, maxd) ==
  { [face |-> f, amount |-> a, depth |-> d] : f \in SAxes, a \in 1..3, d \in 0..maxd }

(* --------- observation: what the implementation keeps of a piece -------- *)
\* Which sticker of an edge decides whether it is "oriented": the one on the
\* U or D face if there is one, otherwise the one on F or B.
EdgeMarkAxis(p) == IF p[2] # 0 THEN 2 ELSE 3

\* Obs(n, h, g) = <<x, y, z, mark>>: the place of the piece, and
\*   corner: the axis its U/D sticker now lies on;
\*   edge:   1 if its deciding sticker is on the deciding face, else 0;
\*   others: 0 (the place alone determines g).
Obs(n, h, g) ==
  LET p == Apply(g, h)
      k == Kind(n, h)
      mark == CASE k = "corner" -> Abs(g[2])
                [] k = "edge" -> IF Abs(g[EdgeMarkAxis(h)]) = EdgeMarkAxis(p) THEN 1 ELSE 0
                [] OTHER -> 0
  IN <<p[1], p[2], p[3], mark>>

\* A piece looks solved when each of its stickers shows on its own face.
LooksSolved(n, h, g) == \A s \in Stickers(n, h) : Img(g, s) = s

(* ------------------- fixed enumeration of the homes --------------------- *)
HomeLess(a, b) ==
  LET key(p) == ((p[1] + 8) * 17 + (p[2] + 8)) * 17 + (p[3] + 8) IN key(a) < key(b)
HomeSeqOf(n) == SetToSortSeq(Homes(n), HomeLess)

(* --------------------- facts checked by TLC at start-up ----------------- *)
CountOf(n, k) == Cardinality({ p \in Homes(n) : Kind(n, p) = k })
PieceFacts(n) ==
  /\ CountOf(n, "corner") = 8
  /\ CountOf(n, "edge") = IF n % 2 = 1 THEN 12 ELSE 0
  /\ CountOf(n, "wing") = IF n <= 3 THEN 0 ELSE 24 * ((n - 2) \div 2)
  \* all the cubies on the surface
  /\ Cardinality(Homes(n)) = (n*n*n - (n-2)*(n-2)*(n-2)) - (IF n % 2 = 1 THEN 6 ELSE 0)
  \* the observation determines the state and every orbit is one or two
  \* cosets of the group: no information is lost by projecting
  /\ \A h \in Homes(n) : Cardinality({ Obs(n, h, g) : g \in Rots }) = 24
  /\ \A h \in Homes(n) : Obs(n, h, IdRot) = <<h[1], h[2], h[3],
        CASE Kind(n, h) = "corner" -> 2 [] Kind(n, h) = "edge" -> 1 [] OTHER -> 0>>
  \* rotating keeps the orbit
  /\ \A h \in Homes(n), i \in Axes : Orbit(n, Apply(Quarter[i], h)) = Orbit(n, h)
  \* pieces with at least two stickers look solved only at home
  /\ \A h \in Homes(n), g \in Rots :
       Cardinality(Stickers(n, h)) >= 2 => (LooksSolved(n, h, g) <=> g = IdRot)
=============================================================================

-------------------------------- MODULE Legal --------------------------------
(***************************************************************************)
(* Which arrangements of a 2x2x2 or 3x3x3 can be reached by turning.       *)
(*                                                                         *)
(* A state is a sequence over HomeSeqOf(n) of rotations indices (see       *)
(* NCube).  Three numbers decide: the sum of corner twists modulo 3, the   *)
(* sum of edge flips modulo 2 and, for the 3x3x3, the parity of the corner *)
(* against that of the edge permutation.  LawFacts is the inductive step,  *)
(* checked exhaustively piece by piece: a turn changes the twist of a      *)
(* piece by an amount that depends on its place only, and these amounts    *)
(* cancel over the turned layer.                                           *)
(***************************************************************************)
EXTENDS CubeDefs

\* twist of a corner standing at place p with its U/D sticker on axis m:
\* clockwise third-turns from the U/D axis, seen from outside the corner
Twist(p, m) ==
  LET even == p[1] * p[2] * p[3] > 0
      \* clockwise at a positive corner: y, x, z
      order == IF even THEN <<2, 1, 3>> ELSE <<2, 3, 1>>
  IN (CHOOSE k \in 1..3 : order[k] = m) - 1

TwistOf(n, h, g) ==
  LET o == Obs(n, h, g) IN IF Kind(n, h) = "corner" THEN Twist(<<o[1], o[2], o[3]>>, o[4]) ELSE 0
FlipOf(n, h, g) ==
  IF Kind(n, h) = "edge" THEN 1 - Obs(n, h, g)[4] ELSE 0

\* parity of a permutation of a set of places, as 0 or 1: the number of
\* places minus the number of cycles
RECURSIVE CycleFrom(_, _, _)
CycleFrom(perm, start, at) ==
  IF perm[at] = start THEN {at} ELSE {at} \cup CycleFrom(perm, start, perm[at])
RECURSIVE Cycles(_, _)
Cycles(perm, left) ==
  IF left = {} THEN 0
  ELSE LET x == CHOOSE y \in left : TRUE
       IN 1 + Cycles(perm, left \ CycleFrom(perm, x, x))
Parity(perm) == (Cardinality(DOMAIN perm) - Cycles(perm, DOMAIN perm)) % 2

OfKind(n, k) == { h \in Homes(n) : Kind(n, h) = k }

LawFacts(n) ==
  \A f \in SAxes, a \in 1..3 :
    LET r == FaceRot(f, a)
        layerC == { h \in OfKind(n, "corner") : InTurn(n, h, f, 0) }
        layerE == { h \in OfKind(n, "edge") : InTurn(n, h, f, 0) }
        dT(h, g) == (TwistOf(n, h, Comp(r, g)) - TwistOf(n, h, g) + 3) % 3
        dF(h, g) == (FlipOf(n, h, Comp(r, g)) - FlipOf(n, h, g) + 2) % 2
        at(p, h) == { g \in Rots : Apply(g, h) = p }
    IN /\ \A p \in layerC : Cardinality({ dT(h, g) : <<h, g>> \in
              UNION { { <<h, g>> : g \in at(p, h) } : h \in OfKind(n, "corner") } }) = 1
       /\ \A p \in layerE : Cardinality({ dF(h, g) : <<h, g>> \in
              UNION { { <<h, g>> : g \in at(p, h) } : h \in OfKind(n, "edge") } }) = 1
       /\ FoldSet(LAMBDA h, acc : acc + dT(h, IdRot), 0, layerC) % 3 = 0
       /\ FoldSet(LAMBDA h, acc : acc + dF(h, IdRot), 0, layerE) % 2 = 0
       \* corners and edges of a layer move with the same parity
       /\ Parity([h \in layerC |-> Apply(r, h)]) = a % 2
       /\ (layerE # {} => Parity([h \in layerE |-> Apply(r, h)]) = a % 2)
=============================================================================

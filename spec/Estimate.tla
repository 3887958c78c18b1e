------------------------------- MODULE Estimate -------------------------------
(***************************************************************************)
(* How far a cube seems to be from solved.                                 *)
(*                                                                         *)
(* DistT[i][g]    how far the piece of home i, rotated by g, is from home: *)
(*                the sum of the differences of the coordinates, where     *)
(*                places have coordinates -1, 0 and 1                      *)
(* Away(c, ps)    the sum over the pieces ps                               *)
(* Sixteenths(c)  the sum over all of them: the estimate is a sixteenth    *)
(* Least(i, g)    the turns the edge i needs alone                         *)
(***************************************************************************)
EXTENDS NCube
K == INSTANCE Cross
Gap(p, q) == (Abs(p[1] - q[1]) + Abs(p[2] - q[2]) + Abs(p[3] - q[3])) \div (N - 1)
DistT == [i \in 1..P |-> [g \in 1..NRots |-> Gap(Hs[WhereT[i][g]], Hs[i])]]
Away(c, ps) == FoldSet(LAMBDA i, acc : acc + DistT[i][c[i]], 0, ps)
Sixteenths(c) == Away(c, 1..P)
EdgesOf(f) == { i \in 1..P : KindT[i] = "edge" /\ InTurnT[0][f][i] }
LeastT == IF N = 3 THEN K!Steps ELSE <<>>
\* halves, and the largest
Halves(c, f) == FoldSet(LAMBDA i, acc : acc + LeastT[i][c[i]], 0, EdgesOf(f))
Largest(c, f) == FoldSet(LAMBDA i, acc : IF LeastT[i][c[i]] > acc THEN LeastT[i][c[i]] ELSE acc, 0, EdgesOf(f))
=============================================================================

------------------------------ MODULE MCEstimate ------------------------------
(***************************************************************************)
(* What the estimates tell: of all cubes some turns away, and of every     *)
(* piece in every state (as assumptions).                                  *)
(***************************************************************************)
EXTENDS Estimate, TLC
CONSTANT Most
VARIABLES turns, quarters
vars == <<cube, turns, quarters>>
Init == CubeInit /\ turns = 0 /\ quarters = 0
ENext == \E f \in SAxes, a \in 1..3 : turns < Most /\ Turn(f, a, 0) /\ turns' = turns + 1
                                     /\ quarters' = quarters + (IF a = 2 THEN 2 ELSE 1)
Spec == Init /\ [][ENext]_vars

\* a turn moves four corners and four edges; a quarter turn each by two, a half turn by four and two
Change(i, g, f, a) == Abs(DistT[i][IF InTurnT[0][f][WhereT[i][g]] THEN Mult[FaceRotIdx[f][a]][g] ELSE g] - DistT[i][g])
ASSUME \A i \in 1..P, g \in 1..NRots, f \in SAxes, a \in 1..3 :
         Change(i, g, f, a) <= (IF ~InTurnT[0][f][WhereT[i][g]] THEN 0 ELSE IF a = 2 /\ KindT[i] = "corner" THEN 4 ELSE 2)
ASSUME \A f \in SAxes : Cardinality({ i \in 1..P : InTurnT[0][f][i] }) = (IF N = 3 THEN 8 ELSE 4)
\* at most three times the side away; nothing away is home, however it is turned
ASSUME \A i \in 1..P, g \in 1..NRots : DistT[i][g] \in 0..6 /\ (DistT[i][g] = 0 <=> WhereT[i][g] = i)
\* an edge that needs no turn is home and right
ASSUME N = 3 => \A i \in EdgesOf(1) \cup EdgesOf(-1) \cup EdgesOf(2), g \in 1..NRots : LeastT[i][g] \in 0..4 /\ (LeastT[i][g] = 0 <=> g = 1)
ASSUME N = 3 => \A f \in SAxes : Cardinality(EdgesOf(f)) = 4

\* never more than the quarter turns spent (but possibly more than the turns)
QuarterBound == Sixteenths(cube) <= 16 * quarters
TurnBound == Sixteenths(cube) <= 24 * turns
Nothing == Sixteenths(cube) = 0 <=> \A i \in 1..P : WhereT[i][cube[i]] = i
SolvedIsNothing == IsSolved(cube) => Sixteenths(cube) = 0
CrossBound == N = 3 => \A f \in SAxes :
  Largest(cube, f) <= turns /\ Halves(cube, f) <= 4 * turns /\ (Halves(cube, f) = 0 <=> \A i \in EdgesOf(f) : cube[i] = 1)
\* the whole is the sum of its parts
Parts == Sixteenths(cube) = Away(cube, { i \in 1..P : KindT[i] = "corner" }) + Away(cube, { i \in 1..P : KindT[i] = "edge" })
=============================================================================

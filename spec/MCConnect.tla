----------------------------- MODULE MCConnect -------------------------------
(***************************************************************************)
(* Explored from the solved cube to a depth: there is never more than one  *)
(* turn from one cube to another, and no turn leaves a cube as it was.     *)
(***************************************************************************)
EXTENDS Connect
CONSTANT MaxTurns
VARIABLE far
CInit == CubeInit /\ far = 0
CNext == far < MaxTurns /\ far' = far + 1 /\ \E t \in FaceTurns : Turn(t[1], t[2], 0)
Spec == CInit /\ [][CNext]_<<cube, far>>
Unique == Cardinality(Around(cube)) = 18 /\ cube \notin Around(cube)
Undone == \A t \in FaceTurns : Links(Turned(cube, t[1], t[2], 0), cube) = { <<t[1], 4 - t[2]>> }
=============================================================================

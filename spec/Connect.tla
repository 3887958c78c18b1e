------------------------------- MODULE Connect -------------------------------
(***************************************************************************)
(* Which turns lead from one cube to another.                               *)
(***************************************************************************)
EXTENDS NCube
FaceTurns == { <<f, a>> : f \in SAxes, a \in 1..3 }
Links(c1, c2) == { t \in FaceTurns : Turned(c1, t[1], t[2], 0) = c2 }
\* the cubes at most two turns away and what links them
Around(c) == { Turned(c, t[1], t[2], 0) : t \in FaceTurns }
=============================================================================

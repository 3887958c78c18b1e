----------------------------- MODULE ExportSteps ------------------------------
(* For every edge and state, the turns it needs alone.                         *)
EXTENDS Cross, Json
CONSTANT OutFile
ASSUME JsonSerialize(OutFile, [i \in 1..Size |-> IF Is[i] = "edge" THEN Steps[i] ELSE <<>>])
VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE
=============================================================================

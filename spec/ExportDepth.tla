----------------------------- MODULE ExportDepth -----------------------------
(* Which depths each limit allows, as texts of the numbers.                  *)
EXTENDS Depth, Json
CONSTANT OutFile
ASSUME JsonSerialize(OutFile, [points |-> Points, within |-> [m \in Ords |-> [d \in Ords |-> d <= m]]])
VARIABLE done
Init == done = FALSE /\ DInit
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED dvars
Spec == Init /\ [][Next]_<<done, wt, ok>>
=============================================================================

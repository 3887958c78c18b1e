----------------------------- MODULE ExportIndex ------------------------------
(* How many arrangements there are, for the real tables.                      *)
EXTENDS Index, TLC, Json
CONSTANT OutFile
ASSUME JsonSerialize(OutFile, [corners |-> Size(8, 8, 3, TRUE), edges |-> Size(6, 12, 2, FALSE)])
VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE
=============================================================================

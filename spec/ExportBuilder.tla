---------------------------- MODULE ExportBuilder ----------------------------
(* The puzzles of Builder with their tables of distances, for the harness.   *)
EXTENDS Builder, Json
CONSTANT OutFile
DistTabs == [i \in DOMAIN Family |-> Distances(Family[i].p)]
Rec(i, d) == [name |-> Family[i].name, places |-> Family[i].places, spins |-> Family[i].spins,
              step |-> Family[i].p.step, dist |-> [s \in 1..Family[i].p.n |-> d[s - 1]]]
ASSUME \A i \in DOMAIN Family : Family[i].places * Family[i].spins = Family[i].p.n
ASSUME \A i \in DOMAIN Family : \A s \in DOMAIN DistTabs[i] : DistTabs[i][s] <= 250
ASSUME JsonSerialize(OutFile, [i \in DOMAIN Family |-> Rec(i, DistTabs[i])])
VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE
=============================================================================

---------------------------- MODULE MCCertificate ----------------------------
(***************************************************************************)
(* Every table of a small puzzle, laid out entry by entry: the certified   *)
(* ones are exactly the table of distances.                                *)
(***************************************************************************)
EXTENDS Builder
CONSTANTS Which, Most
P == CASE Which = 1 -> OneWay(5) [] Which = 2 -> Ring(6) [] Which = 3 -> Needle(5, 18)
       [] Which = 4 -> Tree(6) [] OTHER -> Hops(6)
DistT == Distances(P)
VARIABLE entries
Init == entries = <<>>
Next == Len(entries) < P.n /\ \E v \in 0..Most : entries' = Append(entries, v)
Spec == Init /\ [][Next]_entries
AsTab == [s \in 0..(P.n - 1) |-> entries[s + 1]]
OnlyDistances == Len(entries) = P.n => (Certified(P, AsTab) <=> AsTab = DistT)
=============================================================================

-------------------------------- MODULE MCHeur --------------------------------
(***************************************************************************)
(* Every history of loading and asking, over two versions of each table    *)
(* and two cubes.                                                          *)
(***************************************************************************)
EXTENDS Heur
Ent(k, v, i) == (IF k = "edges" THEN 3 ELSE 5) * v + i
Cubes == {<<0, 1, 2>>, <<4, 0, 1>>}
VARIABLES asked, told, op
vars == <<files, shared, own, asked, told, op>>
Init == HInit /\ asked = <<0, 0, 0>> /\ told = NoAnswer /\ op = "start"
Other == 99
Answers == {NoAnswer, Other} \cup 0..20
Next ==
  \/ \E k \in Kinds, v \in Versions \cup {NoTable} : Place(k, v) /\ op' = "place" /\ UNCHANGED <<asked, told>>
  \/ \E ok \in BOOLEAN : LoadOwn(ok) /\ op' = "load" /\ UNCHANGED <<asked, told>>
  \/ \E ix \in Cubes, a \in Answers :
       /\ asked' = ix /\ told' = a
       /\ \/ Lookup(ix, a) /\ op' = "lookup"
          \/ Fallback(ix, Other, a) /\ op' = "fallback"
          \/ Mus(ix, a) /\ op' = "mus"
          \/ AskOwn(ix, a) /\ op' = "own"
Spec == Init /\ [][Next]_vars
\* tables, once in use, stay; and are whole
Fixed == [][shared # NoTables => shared' = shared]_vars
Whole == shared # NoTables => \A k \in Kinds : shared[k] \in Versions
\* after the first use the fallback is never heard again, before it the tables never are
Heard == /\ (op \in {"fallback", "lookup"} /\ shared # NoTables) => told \in 0..20
         /\ (op = "lookup" /\ shared = NoTables) => told = NoAnswer
         /\ (op = "fallback" /\ shared = NoTables) => told = Other
\* only the loading heuristic brings tables in
OnlyMus == [][shared = NoTables /\ shared' # NoTables => op' = "mus"]_vars
=============================================================================

--------------------------------- MODULE Heur ---------------------------------
(***************************************************************************)
(* The table heuristic and when tables are in use.                         *)
(*                                                                         *)
(* files       which version of a table each file holds; 0 is none         *)
(* shared      the tables the process uses for its heuristics: none, or    *)
(*             the versions it took, once and for all, at its first use    *)
(* own         tables loaded apart from these                              *)
(*                                                                         *)
(* A cube is given by its three numbers: corners, first and second half of *)
(* the edges.  Value is the largest of the three entries.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Versions, Entry(_, _, _)   \* Entry(kind, version, number)
VARIABLES files, shared, own
hvars == <<files, shared, own>>
Kinds == {"edges", "corners"}
NoTable == 0
NoTables == [k \in Kinds |-> NoTable]
NoAnswer == -1

Max3(a, b, c) == LET m == IF a > b THEN a ELSE b IN IF m > c THEN m ELSE c
Value(tabs, ix) ==
  Max3(Entry("corners", tabs["corners"], ix[1]),
       Entry("edges", tabs["edges"], ix[2]), Entry("edges", tabs["edges"], ix[3]))

HInit == files = NoTables /\ shared = NoTables /\ own = NoTables
Present == \A k \in Kinds : files[k] # NoTable
\* someone changes a file
Place(k, v) == files' = [files EXCEPT ![k] = v] /\ UNCHANGED <<shared, own>>
\* the lookup that never loads: nothing, or the value
Lookup(ix, answer) ==
  /\ answer = IF shared = NoTables THEN NoAnswer ELSE Value(shared, ix)
  /\ UNCHANGED hvars
\* the heuristic with a fallback for as long as there are no tables
Fallback(ix, other, answer) ==
  /\ answer = IF shared = NoTables THEN other ELSE Value(shared, ix)
  /\ UNCHANGED hvars
\* the heuristic that loads at its first use (built tables: see Store)
Mus(ix, answer) ==
  /\ shared = NoTables => Present
  /\ shared' = IF shared = NoTables THEN files ELSE shared
  /\ answer = Value(shared', ix)
  /\ UNCHANGED <<files, own>>
\* tables loaded for oneself: fails when a file is missing
LoadOwn(ok) ==
  /\ ok <=> Present
  /\ own' = IF ok THEN files ELSE own
  /\ UNCHANGED <<files, shared>>
AskOwn(ix, answer) == own # NoTables /\ answer = Value(own, ix) /\ UNCHANGED hvars
=============================================================================

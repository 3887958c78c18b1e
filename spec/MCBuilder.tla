------------------------------ MODULE MCBuilder ------------------------------
(***************************************************************************)
(* The builder as the library does it: pass after pass over the numbers,   *)
(* each pass entering the unknown neighbours of the entries of the pass    *)
(* before, until nothing is unknown.                                       *)
(***************************************************************************)
EXTENDS Builder
CONSTANT Which
P == CASE Which = 1 -> OneWay(12) [] Which = 2 -> Ring(17) [] Which = 3 -> Needle(9, 18)
       [] Which = 4 -> Torus(3, 3) [] Which = 5 -> Tree(20) [] Which = 6 -> Hops(23)
       [] Which = 7 -> OneWay(251) [] OTHER -> OneWay(1)
DistT == Distances(P)
VARIABLES tab, pass, at
vars == <<tab, pass, at>>
Init == tab = [s \in 0..(P.n - 1) |-> IF s = 0 THEN 0 ELSE None] /\ pass = 1 /\ at = 0
Full == \A s \in DOMAIN tab : tab[s] # None
Visit ==
  /\ at < P.n /\ (at = 0 => ~Full)
  /\ tab' = IF tab[at] = pass - 1
            THEN [s \in DOMAIN tab |-> IF tab[s] = None /\ s \in Nexts(P, at) THEN pass ELSE tab[s]]
            ELSE tab
  /\ at' = at + 1 /\ UNCHANGED pass
EndPass == at = P.n /\ at' = 0 /\ pass' = pass + 1 /\ UNCHANGED tab
Finished == at = 0 /\ Full
Next == Visit \/ EndPass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Exact == \A s \in DOMAIN tab : tab[s] # None => tab[s] = DistT[s]
\* between passes everything within the distance is known and nothing beyond
Frontier == at = 0 => \A s \in DOMAIN tab : (tab[s] # None) <=> DistT[s] < pass
Done == Finished => tab = DistT /\ Certified(P, tab)
\* only ever the right table is certified: any one entry changed is seen
OnlyExact == (Finished /\ P.n <= 40) =>
  \A s \in DOMAIN tab, v \in 0..(P.n + 1) : v # tab[s] => ~Certified(P, [tab EXCEPT ![s] = v])
Ends == <>Finished
=============================================================================

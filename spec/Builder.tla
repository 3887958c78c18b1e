------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* Building a table of distances from the solved state (number 0) pass by  *)
(* pass, and when a table is exact.                                        *)
(*                                                                         *)
(* A puzzle is [n, step]: n states 0..n-1 and what each of the 18 turns    *)
(* (numbered 1..18) makes of each.  Puzzles need not be symmetric: a turn  *)
(* may be impossible to undo.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

TurnNos == 1..18
None == 255

Step(p, s, t) == p.step[s + 1][t]
Nexts(p, s) == { Step(p, s, t) : t \in TurnNos }

\* the set of states at each distance, outwards
RECURSIVE Shells(_, _, _)
Shells(p, shell, known) ==
  IF shell = {} THEN <<>>
  ELSE <<shell>> \o Shells(p, (UNION { Nexts(p, s) : s \in shell }) \ known,
                           known \cup UNION { Nexts(p, s) : s \in shell })
Distances(p) ==
  LET sh == Shells(p, {0}, {0})
  IN  [s \in 0..(p.n - 1) |->
         IF \E d \in DOMAIN sh : s \in sh[d] THEN (CHOOSE d \in DOMAIN sh : s \in sh[d]) - 1 ELSE None]

\* what can be seen of an exact table without knowing the distances
Certified(p, tab) ==
  /\ DOMAIN tab = 0..(p.n - 1)
  /\ tab[0] = 0
  /\ \A s \in 0..(p.n - 1), t \in TurnNos : tab[Step(p, s, t)] <= tab[s] + 1
  /\ \A s \in 1..(p.n - 1) : tab[s] > 0 /\ \E r \in 0..(p.n - 1) : tab[r] = tab[s] - 1 /\ s \in Nexts(p, r)

(* ------------------------------- puzzles ------------------------------- *)
\* turn number -> face 0..5, amount 1..3
FaceNo(t) == (t - 1) \div 3
AmountNo(t) == ((t - 1) % 3) + 1
\* a corridor one way: every turn goes on by one, the last stays
OneWay(n) == [n |-> n, step |-> [s \in 1..n |-> [t \in TurnNos |-> IF s < n THEN s ELSE n - 1]]]
\* a ring both ways, turned by the amount, only by one face and its opposite
Ring(n) == [n |-> n, step |-> [s \in 1..n |-> [t \in TurnNos |->
  CASE FaceNo(t) = 0 -> (s - 1 + AmountNo(t)) % n
    [] FaceNo(t) = 3 -> (s - 1 + n - AmountNo(t)) % n
    [] OTHER -> s - 1]]]
\* a ring on which a single one of the turns is of any use
Needle(n, u) == [n |-> n, step |-> [s \in 1..n |-> [t \in TurnNos |-> IF t = u THEN s % n ELSE s - 1]]]
\* a torus a x b x 4, one axis each; the third one is a real face: quarter turns
Torus(a, b) == [n |-> a * b * 4, step |-> [s \in 1..(a * b * 4) |-> [t \in TurnNos |->
  LET z == (s - 1) % 4
      y == ((s - 1) \div 4) % b
      x == ((s - 1) \div 4) \div b
      k == AmountNo(t)
      at(i, j, h) == ((i * b) + j) * 4 + h
  IN  CASE FaceNo(t) = 0 -> at((x + k) % a, y, z)
        [] FaceNo(t) = 1 -> at(x, (y + k) % b, z)
        [] FaceNo(t) = 2 -> at(x, y, (z + k) % 4)
        [] FaceNo(t) = 3 -> at((x + a - (k % a)) % a, y, z)
        [] OTHER -> s - 1]]]
\* a tree: turns lead down to one of three children, or back up to the root
Tree(n) == [n |-> n, step |-> [s \in 1..n |-> [t \in TurnNos |->
  LET child == 3 * (s - 1) + AmountNo(t) IN
    IF FaceNo(t) = 4 THEN 0 ELSE IF FaceNo(t) = 1 /\ child < n THEN child ELSE s - 1]]]
\* hops with remainders, nothing symmetric about it
Hops(n) == [n |-> n, step |-> [s \in 1..n |-> [t \in TurnNos |->
  (((s - 1) * (FaceNo(t) + 1)) + AmountNo(t)) % n]]]

\* in the shape in which the implementation is given them: places x orientations
Family == <<
  [name |-> "oneway", places |-> 251, spins |-> 1, p |-> OneWay(251)],
  [name |-> "short", places |-> 1, spins |-> 1, p |-> OneWay(1)],
  [name |-> "two", places |-> 1, spins |-> 2, p |-> OneWay(2)],
  [name |-> "ring", places |-> 90, spins |-> 4, p |-> Ring(360)],
  [name |-> "needle", places |-> 50, spins |-> 5, p |-> Needle(250, 18)],
  [name |-> "needle2", places |-> 77, spins |-> 3, p |-> Needle(231, 11)],
  [name |-> "torus", places |-> 35, spins |-> 4, p |-> Torus(5, 7)],
  [name |-> "tree", places |-> 121, spins |-> 3, p |-> Tree(363)],
  [name |-> "hops", places |-> 100, spins |-> 6, p |-> Hops(600)] >>
=============================================================================

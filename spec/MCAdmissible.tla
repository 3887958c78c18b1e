----------------------------- MODULE MCAdmissible -----------------------------
(***************************************************************************)
(* Why the largest of three exact distances never overestimates, and why   *)
(* one table serves both halves: three components of a puzzle, turned      *)
(* together; the third one is the second seen through a symmetry that      *)
(* renames the turns.  The distance of the whole is never below that of a  *)
(* component; the third component's distance is the second's table at the  *)
(* mirrored state.                                                         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, FiniteSetsExt, TLC
CONSTANTS A, B           \* sizes of the first component and of the other two
Ts == 1..6
Rename == [t \in Ts |-> IF t <= 3 THEN t + 3 ELSE t - 3]
StepA(s, t) == CASE t = 1 -> (s + 1) % A [] t = 2 -> (s + 2) % A [] t = 4 -> (s + A - 1) % A [] t = 5 -> (s * 2) % A
                 [] OTHER -> s
StepB(s, t) == CASE t = 1 -> (s + 1) % B [] t = 3 -> (s * 3 + 1) % B [] t = 4 -> (s + B - 2) % B [] t = 6 -> (B - s) % B
                 [] OTHER -> s
Mirror(s) == (B - s) % B
StepC(s, t) == Mirror(StepB(Mirror(s), Rename[t]))

RECURSIVE Dists(_, _, _, _, _)
\* distance, by layers, of states under a step function given as a table
Dists(step, shell, d, known, acc) ==
  IF shell = {} THEN acc
  ELSE LET nxt == { step[s][t] : <<s, t>> \in shell \X Ts } \ known
       IN  Dists(step, nxt, d + 1, known \cup nxt, [s \in DOMAIN acc |-> IF s \in nxt THEN d + 1 ELSE acc[s]])
Tab(step, n) == Dists(step, {0}, 0, {0}, [s \in 0..(n - 1) |-> IF s = 0 THEN 0 ELSE 99])
TabA == Tab([s \in 0..(A - 1) |-> [t \in Ts |-> StepA(s, t)]], A)
TabB == Tab([s \in 0..(B - 1) |-> [t \in Ts |-> StepB(s, t)]], B)
TabC == Tab([s \in 0..(B - 1) |-> [t \in Ts |-> StepC(s, t)]], B)

\* the whole: reached states with the number of turns spent
VARIABLES whole, spent
Init == whole = <<0, 0, 0>> /\ spent = 0
Next == \E t \in Ts : whole' = <<StepA(whole[1], t), StepB(whole[2], t), StepC(whole[3], t)>>
                      /\ spent' = spent + 1 /\ spent < 6
Spec == Init /\ [][Next]_<<whole, spent>>
M3(a, b, c) == Max({a, b, c})
Admissible == M3(TabA[whole[1]], TabB[whole[2]], TabB[Mirror(whole[3])]) <= spent
OneTable == \A s \in 0..(B - 1) : TabC[s] = TabB[Mirror(s)]
=============================================================================

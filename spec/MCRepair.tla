------------------------------- MODULE MCRepair -------------------------------
(***************************************************************************)
(* Every arrangement of a few corners and edges, every order of repairs;   *)
(* and drawing: an arrangement taken at random from all of them and then   *)
(* repaired is any possible one with the same chance.                      *)
(***************************************************************************)
EXTENDS Repair, TLC
CONSTANTS K, M
Perms(n) == IF n = 0 THEN {<<>>} ELSE { p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j] }
All == { [cp |-> a, ct |-> t, ep |-> b, ef |-> f] :
           a \in Perms(K), t \in [1..K -> 0..2], b \in Perms(M), f \in [1..M -> 0..1] }
VARIABLES start, done
Init == arr \in All /\ start = arr /\ done = {}
Next == \E k \in Fixes : Repair(k) /\ done' = done \cup {k} /\ UNCHANGED start
Spec == Init /\ [][Next]_<<arr, start, done>>

\* whatever the order, repairing gives one possible arrangement
Whole == done = Fixes => Possible(arr) /\ arr = Repaired(start)
\* a repair cures its own law and leaves the others
Own == /\ "swap" \in done => ~Uneven(arr)
       /\ "flip" \in done => Flips(arr) = 0
       /\ "twist" \in done => Twists(arr) = 0
       /\ "swap" \notin done => Uneven(arr) = Uneven(start)
       /\ "flip" \notin done => Flips(arr) = Flips(start)
       /\ "twist" \notin done => Twists(arr) = Twists(start)
Leaves == Possible(start) => arr = start
Few == /\ \A i \in 1..K : arr.cp[i] = start.cp[i] /\ (i < K => arr.ct[i] = start.ct[i])
       /\ \A i \in 3..M : arr.ep[i] = start.ep[i] /\ (i < M => arr.ef[i] = start.ef[i])
       /\ { <<arr.ep[i], IF i = M /\ "flip" \in done THEN 0 ELSE arr.ef[i]>> : i \in 1..M }
            = { <<start.ep[i], IF i = M /\ "flip" \in done THEN 0 ELSE start.ef[i]>> : i \in 1..M }

\* drawing
Good == { x \in All : Possible(x) }
Share == Cardinality(All) \div Cardinality(Good)
RepairedAs == [x \in All |-> Repaired(x)]
ASSUME Share = IF M > 1 THEN 12 ELSE 3
ASSUME LET f == TLCEval(RepairedAs) IN \A y \in Good : Cardinality({ x \in All : f[x] = y }) = Share
\* among all possible arrangements: two pieces (of several) are in any two places and with any two marks equally
\* often, and so the tallies of Draw are to be even
Corners == { <<i, j>> \in (1..K) \X (1..K) : i < j }
Even(f(_), S, size) == LET img == TLCEval([x \in S |-> f(x)]) vals == { img[x] : x \in S } IN
   /\ Cardinality(vals) = size
   /\ \A v \in vals : Cardinality({ x \in S : img[x] = v }) * size = Cardinality(S)
ASSUME K > 2 => \A p \in Corners :
   Even(LAMBDA x : <<x.cp[p[1]], x.ct[p[1]], x.cp[p[2]], x.ct[p[2]]>>, Good, 9 * K * (K - 1))
ASSUME K > 2 /\ M > 2 => Even(LAMBDA x : <<x.cp[1], x.ct[1], x.ep[M], x.ef[M]>>, Good, 6 * K * M)
ASSUME Even(LAMBDA x : Odd(x.cp), Good, 2)
ASSUME K > 2 => Even(LAMBDA x : (x.ct[1] + x.ct[K]) % 3, Good, 3)
=============================================================================

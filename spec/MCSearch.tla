------------------------------- MODULE MCSearch -------------------------------
(***************************************************************************)
(* All graphs of N states with K turns each, laid out turn by turn; then   *)
(* all targets and estimates; the library's way of looking gives a right   *)
(* answer on each.                                                         *)
(***************************************************************************)
EXTENDS Search, TLC
CONSTANTS N, K, Estimates, Limits
VARIABLES laid, task, given
vars == <<laid, task, given>>
Unset == [succ |-> <<>>, targets |-> {}, h |-> <<>>, start |-> 0, limit |-> 0]
Init == laid = <<>> /\ task = Unset /\ given = None
Lay == /\ Len(laid) < N * K
       /\ \E to \in 1..N : laid' = Append(laid, to)
       /\ UNCHANGED <<task, given>>
Graph == [s \in 1..N |-> [i \in 1..K |-> <<i, laid[(s - 1) * K + i]>>]]
Ask == /\ Len(laid) = N * K /\ task = Unset
       /\ \E tg \in SUBSET (1..N), h \in [1..N -> Estimates], l \in Limits :
            task' = [succ |-> Graph, targets |-> tg, h |-> h, start |-> 1, limit |-> l]
       /\ given' = Answer(task')
       /\ UNCHANGED laid
Next == Lay \/ Ask
Spec == Init /\ [][Next]_vars
AlwaysRight == task # Unset => Right(task, given)
=============================================================================

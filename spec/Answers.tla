-------------------------------- MODULE Answers -------------------------------
(***************************************************************************)
(* Questions and answers.  A question is an operation with its arguments;  *)
(* it is asked by a thread and some time later told its answer, while      *)
(* other threads ask.  Everything asked and told, of one process or        *)
(* several, is a record; it is Consistent if no question has two answers.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
\* record: set of <<question, answer>>
Consistent(record) == \A x, y \in record : x[1] = y[1] => x[2] = y[2]
\* a thread that has asked is told the answer to what it asked
Idle == "-"
CanAsk(asking, t) == asking[t] = Idle
CanTell(asking, t, q) == asking[t] = q /\ q # Idle
=============================================================================

--------------------------------- MODULE Race ---------------------------------
(***************************************************************************)
(* The shared tables used by several threads at once, while the files      *)
(* change.  Two kinds of call: "look" never loads, "use" loads at the      *)
(* first use, for everybody.  A call is invoked, does its work in steps    *)
(* that interleave with those of others, and responds.                     *)
(*                                                                         *)
(* once     "no" (nothing loaded), "busy" (someone is loading), "yes"      *)
(* part     what the one who loads has read so far                         *)
(* table    the tables in use                                              *)
(* at[t]    what thread t is doing; says[t] its answer to the last call    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Versions
VARIABLES files, once, part, table, at, says
rvars == <<files, once, part, table, at, says>>
Kinds == {"edges", "corners"}
None == [k \in Kinds |-> 0]

RInit ==
  /\ files \in [Kinds -> Versions]
  /\ once = "no" /\ part = None /\ table = None
  /\ at = [t \in Threads |-> "idle"] /\ says = [t \in Threads |-> None]

Swap(k, v) == files' = [files EXCEPT ![k] = v] /\ UNCHANGED <<once, part, table, at, says>>
Invoke(t, op) == at[t] = "idle" /\ at' = [at EXCEPT ![t] = op] /\ UNCHANGED <<files, once, part, table, says>>
\* look, once: what is there now
LookNow(t) ==
  /\ at[t] = "look" /\ at' = [at EXCEPT ![t] = "looked"] /\ says' = [says EXCEPT ![t] = table]
  /\ UNCHANGED <<files, once, part, table>>
\* the first to use begins to load; others wait until it is done
Begin(t) == at[t] = "use" /\ once = "no" /\ once' = "busy" /\ at' = [at EXCEPT ![t] = "load"] /\ part' = None
            /\ UNCHANGED <<files, table, says>>
Read(t, k) == at[t] = "load" /\ part[k] = 0 /\ part' = [part EXCEPT ![k] = files[k]]
            /\ UNCHANGED <<files, once, table, at, says>>
Publish(t) == at[t] = "load" /\ (\A k \in Kinds : part[k] # 0) /\ table' = part /\ once' = "yes"
            /\ at' = [at EXCEPT ![t] = "use"] /\ UNCHANGED <<files, part, says>>
UseNow(t) ==
  /\ at[t] = "use" /\ once = "yes" /\ at' = [at EXCEPT ![t] = "used"] /\ says' = [says EXCEPT ![t] = table]
  /\ UNCHANGED <<files, once, part, table>>
Respond(t) == at[t] \in {"looked", "used"} /\ at' = [at EXCEPT ![t] = "idle"] /\ UNCHANGED <<files, once, part, table, says>>
=============================================================================

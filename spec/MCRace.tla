-------------------------------- MODULE MCRace --------------------------------
(***************************************************************************)
(* Every interleaving of a few threads' calls and file changes, listened   *)
(* to by Heard: it accepts all of them.                                    *)
(***************************************************************************)
EXTENDS Race, TLC
CONSTANTS Calls, Swaps      \* calls per thread, changes of files
VARIABLES left, swaps, doing, held, begun, can, in, told, must, ok
H == INSTANCE Heard WITH HThreads <- Threads
vars == <<rvars, left, swaps, doing, held, begun, can, in, told, must, ok>>
Init == RInit /\ left = [t \in Threads |-> Calls] /\ swaps = Swaps /\ doing = <<>> /\ H!HeardInit(files) /\ ok = TRUE
Quiet == UNCHANGED <<held, begun, can, in, told, must, ok>>
Next ==
  \/ \E k \in Kinds, v \in Versions : swaps > 0 /\ doing = <<>> /\ v # files[k] /\ swaps' = swaps - 1
       /\ doing' = <<k, v>> /\ H!HSwapBegins(k, v) /\ UNCHANGED <<rvars, left, ok>>
  \/ doing # <<>> /\ Swap(doing[1], doing[2]) /\ UNCHANGED <<left, swaps, doing>> /\ Quiet
  \/ doing # <<>> /\ files[doing[1]] = doing[2] /\ H!HSwapEnds(doing[1], doing[2]) /\ doing' = <<>> /\ UNCHANGED <<rvars, left, swaps, ok>>
  \/ \E t \in Threads, op \in {"look", "use"} :
       left[t] > 0 /\ Invoke(t, op) /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<swaps, doing>>
       /\ H!HInvoke(t, op) /\ UNCHANGED ok
  \/ \E t \in Threads : (LookNow(t) \/ Begin(t) \/ Publish(t) \/ UseNow(t) \/ \E k \in Kinds : Read(t, k))
       /\ UNCHANGED <<left, swaps, doing>> /\ Quiet
  \/ \E t \in Threads : Respond(t) /\ UNCHANGED <<left, swaps, doing>>
       /\ LET op == IF at[t] = "looked" THEN "look" ELSE "use" IN
          IF says[t] = None
          THEN \/ H!HNothing(t, op) /\ UNCHANGED ok
               \/ ~(op = "look" /\ ~must[t]) /\ UNCHANGED <<held, begun, can, in, told, must>> /\ ok' = FALSE
          ELSE \/ H!HAnswer({says[t]}) /\ UNCHANGED ok
               \/ ~(begun /\ says[t] \in H!Could) /\ UNCHANGED <<held, begun, can, in, told, must>> /\ ok' = FALSE
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_rvars(LookNow(t) \/ Begin(t) \/ Publish(t) \/ UseNow(t)
                                                            \/ Respond(t) \/ \E k \in Kinds : Read(t, k))
Sound == ok
One == told => in = {table}
OneTable == \A t \in Threads : says[t] \in {None, table}
OneLoads == Cardinality({ t \in Threads : at[t] = "load" }) = (IF once = "busy" THEN 1 ELSE 0)
Kept == [][table # None => table' = table]_vars
\* nobody waits for ever
Answered == \A t \in Threads : (at[t] # "idle") ~> (at[t] = "idle")
=============================================================================

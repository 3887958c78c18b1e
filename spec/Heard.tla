--------------------------------- MODULE Heard --------------------------------
(***************************************************************************)
(* What can be told from outside of calls of several threads to the shared *)
(* tables: calls as they are invoked and as they respond, and changes of   *)
(* files.  (MCRace: everything Race does can be heard so; and nothing else *)
(* can, but for which call of several at once was first.)                  *)
(*                                                                         *)
(* held[k]   versions that file k may hold now: two while it is changed   *)
(* begun     a call that may load was invoked                              *)
(* can[k]    versions that the file held since then                        *)
(* in        the pairs of versions the tables in use may be; empty before  *)
(*           anyone was answered from a table                              *)
(* must[t]   the call of t was invoked after someone was answered          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS HThreads
VARIABLES held, begun, can, in, told, must
heard == <<held, begun, can, in, told, must>>
Both == {"edges", "corners"}
HeardInit(f) ==
  /\ held = [k \in Both |-> {f[k]}] /\ begun = FALSE /\ can = [k \in Both |-> {}] /\ in = {} /\ told = FALSE
  /\ must = [t \in HThreads |-> FALSE]
HSwapBegins(k, v) ==
  /\ held' = [held EXCEPT ![k] = @ \cup {v}]
  /\ can' = IF begun THEN [can EXCEPT ![k] = @ \cup {v}] ELSE can
  /\ UNCHANGED <<begun, in, told, must>>
HSwapEnds(k, v) == held' = [held EXCEPT ![k] = {v}] /\ UNCHANGED <<begun, can, in, told, must>>
HInvoke(t, op) ==
  /\ must' = [must EXCEPT ![t] = told]
  /\ begun' = (begun \/ op = "use")
  /\ can' = IF begun' /\ ~begun THEN held ELSE can
  /\ UNCHANGED <<held, in, told>>
\* no answer: allowed to a look only, unless it was invoked after someone was answered
HNothing(t, op) == op = "look" /\ ~must[t] /\ UNCHANGED heard
\* an answer which tables in pairs would give
Could == IF told THEN in ELSE { [edges |-> a, corners |-> b] : a \in can["edges"], b \in can["corners"] }
HAnswer(pairs) ==
  /\ begun
  /\ in' = Could \cap pairs
  /\ in' # {}
  /\ told' = TRUE
  /\ UNCHANGED <<held, begun, can, must>>
=============================================================================

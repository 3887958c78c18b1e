------------------------------- MODULE TraceRace ------------------------------
(***************************************************************************)
(* Recorded histories of several threads that use the shared tables, in    *)
(* the order in which calls were invoked and responded, from a clock all   *)
(* of them share:                                                          *)
(*   start edges corners          a new process, with files of these       *)
(*                                versions                                 *)
(*   swap k v / swapped k v       a file is changed, between these two     *)
(*   call t op ix                 thread t calls: look or use, of a cube   *)
(*   none t op | says t v         it is answered                           *)
(* Tables are made as in TraceHeur.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ts == 1..8
VARIABLES held, begun, can, in, told, must, asked, l
H == INSTANCE Heard WITH HThreads <- Ts
tvars == <<held, begun, can, in, told, must, asked, l>>
EntryOf(k, v, i) ==
  (((i % 9973) * (17 + (10 * v) + (IF k = "edges" THEN 3 ELSE 0)) + (i \div 9973) * 7 + v) % 241) + (IF k = "edges" THEN 2 ELSE 0)
Max2(a, b) == IF a > b THEN a ELSE b
Value(tabs, ix) ==
  Max2(EntryOf("corners", tabs.corners, ix[1]), Max2(EntryOf("edges", tabs.edges, ix[2]), EntryOf("edges", tabs.edges, ix[3])))
T == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Nobody == [t \in Ts |-> <<>>]
TInit == l = 1 /\ H!HeardInit([edges |-> 0, corners |-> 0]) /\ asked = Nobody
TStart == IsEvent("start") /\ asked' = Nobody
  /\ held' = [edges |-> {T.edges}, corners |-> {T.corners}] /\ begun' = FALSE /\ can' = [k \in H!Both |-> {}]
  /\ in' = {} /\ told' = FALSE /\ must' = [t \in Ts |-> FALSE]
TSwap == IsEvent("swap") /\ H!HSwapBegins(T.k, T.v) /\ UNCHANGED asked
TSwapped == IsEvent("swapped") /\ H!HSwapEnds(T.k, T.v) /\ UNCHANGED asked
TCall == IsEvent("call") /\ asked[T.t] = <<>> /\ H!HInvoke(T.t, T.op) /\ asked' = [asked EXCEPT ![T.t] = <<T.op, T.ix>>]
TNone == IsEvent("none") /\ asked[T.t] # <<>> /\ H!HNothing(T.t, asked[T.t][1]) /\ asked' = [asked EXCEPT ![T.t] = <<>>]
TSays == IsEvent("says") /\ asked[T.t] # <<>>
  /\ H!HAnswer({ p \in [edges : 1..9, corners : 1..9] : Value(p, asked[T.t][2]) = T.v })
  /\ asked' = [asked EXCEPT ![T.t] = <<>>]
TNext == TStart \/ TSwap \/ TSwapped \/ TCall \/ TNone \/ TSays
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

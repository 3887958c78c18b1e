------------------------------ MODULE TraceTurns -----------------------------
(***************************************************************************)
(* Is a recorded run of the implementation a behaviour of NCube?           *)
(*                                                                         *)
(* One JSON object per line:                                               *)
(*   reset              a fresh solved cube                                *)
(*   turn  f a d        one turn, through any of the move types            *)
(*   alg   ms           several turns in one call                          *)
(*   undo  ms           the reversed alg of ms in one call                 *)
(*   given              a cube that was made, not turned (random, from     *)
(*                      indices): the state is inferred from what is seen  *)
(*   save  k / cmp k    keep a copy / compare with the copy (== and hash)  *)
(* After each step the line carries what is seen of the cube: obs (place   *)
(* and mark of every piece by home) and solved (the implementation's       *)
(* solved check).                                                          *)
(***************************************************************************)
EXTENDS NCube, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, kept
tvars == <<cube, l, kept>>

\* a sequence of sequences, compared with the model's observation
Seen(c) == Observe(c) = Trace[l].obs /\ IsSolved(c) = Trace[l].solved

IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

TInit == CubeInit /\ l = 1 /\ kept = <<>>
TReset == IsEvent("reset") /\ cube' = Solved /\ Seen(cube') /\ kept' = <<>>
TTurn == IsEvent("turn") /\ Turn(Trace[l].f, Trace[l].a, Trace[l].d) /\ Seen(cube') /\ UNCHANGED kept
TAlg == IsEvent("alg") /\ cube' = TurnedAll(cube, Trace[l].ms) /\ Seen(cube') /\ UNCHANGED kept
TUndo == IsEvent("undo") /\ cube' = TurnedAll(cube, ReversedAlg(Trace[l].ms)) /\ Seen(cube') /\ UNCHANGED kept
TGiven ==
  /\ IsEvent("given")
  /\ \A i \in 1..P : \E g \in 1..NRots : ObsT[i][g] = Trace[l].obs[i]
  /\ cube' = [i \in 1..P |-> CHOOSE g \in 1..NRots : ObsT[i][g] = Trace[l].obs[i]]
  /\ Seen(cube')
  /\ UNCHANGED kept
TSave == IsEvent("save") /\ UNCHANGED cube /\ kept' = Append(kept, cube)
TCmp ==
  /\ IsEvent("cmp")
  /\ LET same == cube = kept[Trace[l].k] IN
       /\ Trace[l].eq = same
       /\ same => Trace[l].heq
  /\ UNCHANGED <<cube, kept>>

TNext == TReset \/ TTurn \/ TAlg \/ TUndo \/ TGiven \/ TSave \/ TCmp
TSpec == TInit /\ [][TNext]_tvars

\* invariants of every state of every trace
Each == EachOnce(cube)
LegalHere == N \in {2, 3} => Legal(cube)

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

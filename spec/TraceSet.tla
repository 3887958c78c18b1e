------------------------------- MODULE TraceSet -------------------------------
(***************************************************************************)
(* Recorded uses of piece sets.                                            *)
(*   type homes by solved      a new kind of pieces; its solved set        *)
(*   new pieces ok places alike   a set asked for; what a refusal names    *)
(*   swap a b                                                              *)
(*   move each                 a move, and what it does to each piece      *)
(*   put k piece               the k-th piece changed behind its back      *)
(*   shuffle                                                               *)
(* and after each (but a refusal), everything that can be asked: list,     *)
(* withhome, from (the piece of each home), whose (place and home), beyond *)
(* (indices past the end give nothing), proper, places, alike, fine (is    *)
(* each piece solved), solved.                                             *)
(***************************************************************************)
EXTENDS PieceSet, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, set, homes, by
vars == <<l, set, homes, by>>
T == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
\* a refusal names at least one duplicate, and nothing that is none
Named(s) ==
  /\ Len(T.places) + Len(T.alike) > 0
  /\ \A i \in 1..Len(T.places) : \E k \in Crowded(s) : s[k][1] = T.places[i]
  /\ \A i \in 1..Len(T.alike) : \E k \in Alike(by', s) : s[k] = T.alike[i]
Looks ==
  LET s == set'
      hs == homes'
  IN
  /\ T.list = s
  /\ T.withhome = [i \in 1..Len(s) |-> <<hs[i], s[i]>>]
  /\ T.from = [i \in 1..Len(s) |-> PieceFrom(hs, s, hs[i])]
  /\ \A i \in 1..Len(T.whose) : T.whose[i][2] \in HomesOf(hs, s, T.whose[i][1])
  /\ T.beyond = 0
  /\ T.proper = Proper(by', s)
  /\ ~T.proper => Named(s)
  /\ T.solved = (\A i \in 1..Len(s) : T.fine[i])
  /\ \A i \in 1..Len(s) : T.fine[i] => (T.bound => s[i][1] = hs[i])
TInit == l = 1 /\ set = <<>> /\ homes = <<>> /\ by = "both"
TType == IsEvent("type") /\ homes' = T.homes /\ by' = T.by /\ set' = T.list /\ Looks
         /\ \A i \in 1..Len(T.homes) : set'[i][1] = T.homes[i]
         /\ T.solved
TNew == /\ IsEvent("new") /\ UNCHANGED <<homes, by>>
        /\ T.ok = Proper(by, T.pieces)
        /\ IF T.ok THEN set' = T.pieces /\ Looks ELSE UNCHANGED set /\ Named(T.pieces)
TSwap == IsEvent("swap") /\ UNCHANGED <<homes, by>> /\ set' = Swapped(homes, set, T.a, T.b) /\ Looks
TMove == IsEvent("move") /\ UNCHANGED <<homes, by>> /\ set' = T.each /\ Looks
TPut == IsEvent("put") /\ UNCHANGED <<homes, by>> /\ set' = [set EXCEPT ![T.k] = T.piece] /\ Looks
TShuffle == IsEvent("shuffle") /\ UNCHANGED <<homes, by>> /\ Reordered(set, T.list) /\ set' = T.list /\ Looks
TNext == TType \/ TNew \/ TSwap \/ TMove \/ TPut \/ TShuffle
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

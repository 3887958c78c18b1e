----------------------------- MODULE TraceWords ------------------------------
(***************************************************************************)
(* Recorded rewritings of words by the implementation:                     *)
(*   norm w v           v is the normalised w                              *)
(*   random n w         a random word of length n                          *)
(*   quarters w q       w in quarter turns                                 *)
(*   expand cs w        combined moves written out                         *)
(*   clear | take t how c    a combined move takes a turn and becomes c    *)
(***************************************************************************)
EXTENDS Words, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cmove
tvars == <<l, cmove>>
T == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TInit == l = 1 /\ cmove = NoMove
TNorm == IsEvent("norm") /\ IsNormalised(T.w, T.v) /\ UNCHANGED cmove
TRandom == IsEvent("random") /\ Len(T.w) = T.n /\ ~Redundant(T.w) /\ UNCHANGED cmove
TQuarters == IsEvent("quarters") /\ Quarters(T.w, T.q) /\ UNCHANGED cmove
TExpand == IsEvent("expand") /\ Spell(T.cs) = T.w /\ UNCHANGED cmove
TClear == IsEvent("clear") /\ cmove' = NoMove
TTake ==
  /\ IsEvent("take")
  /\ cmove' = Take(cmove, T.t)
  /\ T.c = cmove'
  /\ IF How(cmove, T.t) = "new" THEN T.how # "refused" ELSE T.how = How(cmove, T.t)
TNext == TNorm \/ TRandom \/ TQuarters \/ TExpand \/ TClear \/ TTake
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

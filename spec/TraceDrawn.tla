----------------------------- MODULE TraceDrawn -------------------------------
(***************************************************************************)
(* Tallies of many draws:                                                  *)
(*   values kind depth n keys counts   of values                           *)
(*   two    kind n keys counts         of two drawn one after another, or  *)
(*                                     some turns apart in an alg          *)
(*   first  n keys counts              of what an alg begins with          *)
(*   after  c n keys counts            of what follows combined move c     *)
(*   axes   n keys counts              of three axes one after another     *)
(* Every count comes with what was counted.                                *)
(***************************************************************************)
EXTENDS Drawn, Fair, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
\* exactly these were seen, each as often
Each(S) == LET ks == ToSet(T.keys) IN
  /\ Len(T.keys) = Len(T.counts) /\ Cardinality(ks) = Len(T.keys)
  /\ S \subseteq ks
  /\ Fair(T.counts, T.n, { k \in 1..Len(T.keys) : T.keys[k] \in S })
TInit == l = 1
TValues == Is("values") /\ Each(Values(T.kind, T.depth))
TTwo == Is("two") /\ Each({ a \o b : a, b \in Values(T.kind, T.depth) })
TFirst == Is("first") /\ Each(NextOf(<<>>))
TAfter == Is("after") /\ T.c \in Combined /\ Each(NextOf(<<T.c>>))
TAxes == Is("axes") /\ Each({ t \in (1..3) \X (1..3) \X (1..3) : t[1] # t[2] /\ t[2] # t[3] })
TNext == TValues \/ TTwo \/ TFirst \/ TAfter \/ TAxes
TSpec == TInit /\ [][TNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

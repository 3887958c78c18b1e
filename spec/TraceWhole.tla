------------------------------ MODULE TraceWhole -----------------------------
(***************************************************************************)
(* A recorded session with an orientable cube, with all that can be asked  *)
(* of it as a whole.  As TraceHeld, and every event also has solved, the   *)
(* answer of the solved check.  Also                                       *)
(*   given obs r u    a cube that was made, not turned                     *)
(*   wrap             the base cube taken out and wrapped again: held in   *)
(*                    the default orientation                              *)
(*   save             keep a copy                                          *)
(*   cmp k eq         is it equal to the k-th copy?                        *)
(***************************************************************************)
EXTENDS TraceHeld
VARIABLE kept
wvars == <<cube, core, l, kept>>
Ori == OriOf(Trace[l].r, Trace[l].u)
Answer == Trace[l].solved = HandSolved(cube', Ori)
WInit == TInit /\ kept = <<>>
WReset == TReset /\ Answer /\ kept' = <<>>
WMove == (TWide \/ TSlice \/ TRotate) /\ Answer /\ UNCHANGED kept
\* the state of a piece of that home that looks like this
StateOf(i, o) == CHOOSE g \in 1..NRots : ObsT[i][g] = o
WGiven ==
  /\ IsEvent("given")
  /\ \A i \in 1..P : \E g \in 1..NRots : ObsT[i][g] = Trace[l].obs[i]
  /\ core' = Ori
  /\ cube' = [i \in 1..P |-> Mult[Ori][StateOf(i, Trace[l].obs[i])]]
  /\ Seen /\ Answer /\ UNCHANGED kept
\* what is kept of a cube: the base cube and how it is held
Whole == <<[i \in 1..P |-> Trace[l].obs[i]], Ori>>
WWrap ==
  /\ IsEvent("wrap")
  /\ LET o == OriOf(Trace[l - 1].r, Trace[l - 1].u) IN cube' = BaseOf(cube, o)
  /\ core' = 1 /\ Ori = 1
  /\ Seen /\ Answer /\ UNCHANGED kept
WSave == IsEvent("save") /\ UNCHANGED <<cube, core>> /\ Seen /\ kept' = Append(kept, Whole)
WCmp == IsEvent("cmp") /\ UNCHANGED <<cube, core, kept>> /\ Seen /\ Trace[l].eq = (kept[Trace[l].k] = Whole)
WNext == WReset \/ WMove \/ WGiven \/ WWrap \/ WSave \/ WCmp
WSpec == WInit /\ [][WNext]_wvars
=============================================================================

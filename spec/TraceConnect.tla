---------------------------- MODULE TraceConnect -----------------------------
(***************************************************************************)
(* Recorded questions for connecting moves:                                *)
(*   connect from to ans      ans is [] or the turn [f, a]                 *)
(*   states ss ok alg         a list of cubes turned into an alg           *)
(* Cubes are given by what is seen of their pieces.                        *)
(***************************************************************************)
EXTENDS Connect, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1 /\ UNCHANGED cube
StateOf(o) == [i \in 1..P |-> CHOOSE g \in 1..NRots : ObsT[i][g] = o[i]]
TInit == CubeInit /\ l = 1
TConnect ==
  /\ IsEvent("connect")
  /\ LET ls == Links(StateOf(T.from), StateOf(T.to)) IN
     IF T.ans = <<>> THEN ls = {} ELSE T.ans \in ls
TStates ==
  /\ IsEvent("states")
  /\ LET ss == [i \in DOMAIN T.ss |-> StateOf(T.ss[i])]
         gaps == { i \in 1..(Len(ss) - 1) : Links(ss[i], ss[i + 1]) = {} }
     IN  /\ T.ok <=> gaps = {}
         /\ T.ok => /\ Len(T.alg) = (IF ss = <<>> THEN 0 ELSE Len(ss) - 1)
                    /\ \A i \in DOMAIN T.alg : T.alg[i] \in Links(ss[i], ss[i + 1])
TNext == TConnect \/ TStates
TSpec == TInit /\ [][TNext]_<<cube, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

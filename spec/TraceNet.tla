------------------------------- MODULE TraceNet -------------------------------
(***************************************************************************)
(* A recorded run: a cube is turned and looked at.                         *)
(*   reset | turn f a | given obs                                          *)
(* each followed by squares, the squares of its faces R U F L D B by rows, *)
(* and sheet, what it prints (absent rows and squares are 0).              *)
(***************************************************************************)
EXTENDS Net, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
Looks(c) ==
  /\ LET sq == Squares(c) IN \A f \in 1..6 : T.squares[f] = sq[FaceSeq[f]]
  /\ T.sheet = Sheet(c)
TInit == CubeInit /\ l = 1
TReset == IsEvent("reset") /\ cube' = Solved /\ Looks(cube')
TTurn == IsEvent("turn") /\ Turn(T.f, T.a, 0) /\ Looks(cube')
TGiven == /\ IsEvent("given")
          /\ \A i \in 1..P : \E g \in 1..NRots : ObsT[i][g] = T.obs[i]
          /\ cube' = [i \in 1..P |-> CHOOSE g \in 1..NRots : ObsT[i][g] = T.obs[i]]
          /\ Looks(cube')
TNext == TReset \/ TTurn \/ TGiven
TSpec == TInit /\ [][TNext]_<<cube, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

----------------------------- MODULE TraceEstimate ----------------------------
(***************************************************************************)
(* Estimates the implementation gave:                                      *)
(*   cube obs all parts cross   of a cube that looks like obs: sixteenths  *)
(*                 of the whole estimate; parts: of some pieces (by home), *)
(*                 the sum; cross: for the six faces halves, largest       *)
(*   vec a b d     two points and their distance, all in quarters          *)
(*   edges f of yes  the edges on a face: those listed, and those said to  *)
(*                 be                                                      *)
(***************************************************************************)
EXTENDS Estimate, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Readable(o) == \A i \in 1..P : \E g \in 1..NRots : ObsT[i][g] = o[i]
Read(o) == TLCEval([i \in 1..P |-> CHOOSE g \in 1..NRots : ObsT[i][g] = o[i]])
Was(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1 /\ UNCHANGED cube
TInit == l = 1 /\ CubeInit
TCube == /\ Was("cube") /\ Readable(T.obs)
         /\ LET c == Read(T.obs) IN
            /\ T.all = Sixteenths(c)
            /\ \A k \in DOMAIN T.parts : T.parts[k].sum = Away(c, ToSet(T.parts[k].of))
            /\ \A k \in DOMAIN T.cross : T.cross[k] = <<Halves(c, FaceSeq[k]), Largest(c, FaceSeq[k])>>
TVec == Was("vec") /\ T.d = Abs(T.a[1] - T.b[1]) + Abs(T.a[2] - T.b[2]) + Abs(T.a[3] - T.b[3])
TEdges == Was("edges") /\ ToSet(T.of) = EdgesOf(T.f) /\ Len(T.of) = 4 /\ ToSet(T.yes) = EdgesOf(T.f)
TNext == TCube \/ TVec \/ TEdges
TSpec == TInit /\ [][TNext]_<<l, cube>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

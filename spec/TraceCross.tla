------------------------------- MODULE TraceCross ------------------------------
(***************************************************************************)
(* Solutions of the implementation for the 3x3x3:                          *)
(*   solve  start ms least            ms solves the cube start             *)
(*   cross  face start ms end least   ms gives start the cross of the      *)
(*                                    face, and end is the cube it leads to*)
(*   count  face obs n                n of the face's four edges are home  *)
(* least: and no fewer turns do, which is decided by meeting in the middle.*)
(***************************************************************************)
EXTENDS NCube, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
EdgesOf == [f \in SAxes |-> { i \in 1..P : KindT[i] = "edge" /\ InTurnT[0][f][i] }]

Readable(o) == \A i \in 1..P : \E g \in 1..NRots : ObsT[i][g] = o[i]
Read(o) == [i \in 1..P |-> CHOOSE g \in 1..NRots : ObsT[i][g] = o[i]]

RECURSIVE Done(_, _)
Done(c, ms) == IF ms = <<>> THEN c ELSE Done(Turned(c, ms[1][1], ms[1][2], 0), Tail(ms))

\* the pieces of a set, in order, and what a turn makes of their states
InOrder(ps) == SetToSortSeq(ps, LAMBDA a, b : a < b)
TurnedPart(ps, s, f, a) ==
  [k \in DOMAIN ps |-> IF InTurnT[0][f][WhereT[ps[k]][s[k]]] THEN Mult[FaceRotIdx[f][a]][s[k]] ELSE s[k]]
RECURSIVE Ball(_, _, _, _)
\* the states within some turns of those given
Ball(ps, seen, front, n) ==
  IF n = 0 THEN seen
  ELSE LET new == { TurnedPart(ps, s, f, a) : s \in front, f \in SAxes, a \in 1..3 } \ seen
       IN  Ball(ps, seen \cup new, new, n - 1)
\* can the pieces be brought home from c within n turns?
Within(pieces, c, n) ==
  LET ps == InOrder(pieces)
      from == [k \in DOMAIN ps |-> c[ps[k]]]
      home == [k \in DOMAIN ps |-> 1]
      near == n \div 2
  IN  n >= 0 /\ Ball(ps, {from}, {from}, n - near) \cap Ball(ps, {home}, {home}, near) # {}

TInit == l = 1 /\ CubeInit
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1 /\ UNCHANGED cube
Solve == /\ Is("solve") /\ Readable(T.start)
         /\ IsSolved(Done(Read(T.start), T.ms))
         /\ T.least => ~Within(1..P, Read(T.start), Len(T.ms) - 1)
CrossE == /\ Is("cross") /\ Readable(T.start) /\ Readable(T.end)
          /\ Done(Read(T.start), T.ms) = Read(T.end)
          /\ \A i \in EdgesOf[T.face] : Read(T.end)[i] = 1
          /\ T.least => ~Within(EdgesOf[T.face], Read(T.start), Len(T.ms) - 1)
Count == /\ Is("count") /\ Readable(T.obs)
         /\ T.n = Cardinality({ i \in EdgesOf[T.face] : Read(T.obs)[i] = 1 })
TNext == Solve \/ CrossE \/ Count
TSpec == TInit /\ [][TNext]_<<l, cube>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

------------------------------ MODULE TraceDraw -------------------------------
(***************************************************************************)
(* Do tallies of many cubes drawn at random agree with every possible cube *)
(* being as likely as any other (what MCRepair shows of drawing)?          *)
(*   pair    i j n counts   pieces i and j in their 24 x 24 states         *)
(*   places  i j k n counts places of three pieces of a kind               *)
(*   parity  n counts       of the corners' permutation                    *)
(*   sum     ps n counts    of the twists (mod 3) or flips (mod 2) of some *)
(*   again   n pairs        pairs of equal cubes among n                   *)
(* Every tally keeps to what is expected by seven standard deviations, and *)
(* so does the sum of its squares.                                         *)
(***************************************************************************)
EXTENDS NCube, Fair, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<cube, l>>
Ev == Trace[l]

Places(k) == { i \in 1..P : KindT[i] = k }
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED cube
TPair == IsEvent("pair") /\
  Fair(Ev.counts, Ev.n, { k \in 1..576 : LET a == (k - 1) \div 24 + 1
                                             b == ((k - 1) % 24) + 1
                                         IN WhereT[Ev.i][a] # WhereT[Ev.j][b] })
TPlaces == IsEvent("places") /\
  LET ps == Places(KindT[Ev.i])
      m == Cardinality(ps)
      dig(k, j) == ((k - 1) \div (m ^ j)) % m
  IN /\ KindT[Ev.j] = KindT[Ev.i] /\ KindT[Ev.k] = KindT[Ev.i]
     /\ Fair(Ev.counts, Ev.n, { k \in 1..(m * m * m) : Cardinality({ dig(k, 0), dig(k, 1), dig(k, 2) }) = 3 })
TParity == IsEvent("parity") /\ Fair(Ev.counts, Ev.n, 1..2)
TSum == IsEvent("sum") /\
  LET ps == { Ev.ps[i] : i \in 1..Len(Ev.ps) } IN
  \E k \in {"corner", "edge"} : 
     /\ ps # {} /\ ps \subseteq Places(k) /\ ps # Places(k)
     /\ Fair(Ev.counts, Ev.n, 1..(IF k = "corner" THEN 3 ELSE 2))
\* n cubes, in thousands, out of 88179840 are equal to n * n / 2 / 88179840 others
TAgain == IsEvent("again") /\
  IF N = 2 THEN LET e == (Ev.n * Ev.n * 100) \div 17636 IN Near(Ev.pairs, e) ELSE Ev.pairs = 0
TInit == CubeInit /\ l = 1
TNext == TPair \/ TPlaces \/ TParity \/ TSum \/ TAgain
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

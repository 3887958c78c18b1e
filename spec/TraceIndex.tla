----------------------------- MODULE TraceIndex ------------------------------
(***************************************************************************)
(* Recorded numberings by the implementation.                              *)
(*   case k m b det all     a new family; all: everything will be listed   *)
(*   ix places twists ix back   an arrangement, its number and what the    *)
(*                              number stands for ([] where not asked)     *)
(*   end                    with all: nothing may be missing               *)
(*   factorial n digits     how many orders n things have, in digits to     *)
(*                          the base 10000, lowest first; none if more than *)
(*                          a number can be (n > 20)                        *)
(***************************************************************************)
EXTENDS Index, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fac, fam, seen, taken
tvars == <<l, fac, fam, seen, taken>>
T == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TInit == l = 1 /\ fac = <<>> /\ fam = [k |-> 0, m |-> 0, b |-> 1, det |-> FALSE, all |-> FALSE] /\ seen = {} /\ taken = {}
TCase == IsEvent("case") /\ fam' = [k |-> T.k, m |-> T.m, b |-> T.b, det |-> T.det, all |-> T.all]
         /\ seen' = {} /\ taken' = {}
FamSize == Size(fam.k, fam.m, fam.b, fam.det)
TIx ==
  /\ IsEvent("ix")
  /\ IsArrangement(T.places, T.twists, fam.k, fam.m, fam.b, fam.det)
  /\ T.ix \in 0..(FamSize - 1)
  /\ <<T.places, T.twists>> \in seen <=> T.ix \in taken
  /\ T.back # <<>> => T.back = <<T.places, T.twists>>
  /\ seen' = seen \cup {<<T.places, T.twists>>} /\ taken' = taken \cup {T.ix} /\ UNCHANGED fam
TEnd == IsEvent("end") /\ (fam.all => Cardinality(taken) = FamSize /\ Cardinality(seen) = FamSize)
        /\ UNCHANGED <<fam, seen, taken>>
RECURSIVE Times(_, _, _)
Times(d, n, carry) ==
  IF d = <<>> THEN IF carry = 0 THEN <<>> ELSE <<carry % 10000>> \o Times(<<>>, n, carry \div 10000)
  ELSE LET x == d[1] * n + carry IN <<x % 10000>> \o Times(Tail(d), n, x \div 10000)
\* asked in order, from 0 on
TFactorial ==
  /\ IsEvent("factorial") /\ T.n = Len(fac)
  /\ T.digits = IF T.n = 0 THEN <<1>> ELSE IF T.n > 20 THEN <<>> ELSE Times(fac[T.n], T.n, 0)
  /\ fac' = Append(fac, T.digits) /\ UNCHANGED <<fam, seen, taken>>
TNext == TFactorial \/ ((TCase \/ TIx \/ TEnd) /\ UNCHANGED fac)
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

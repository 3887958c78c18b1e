--------------------------------- MODULE Fair ---------------------------------
(***************************************************************************)
(* Do counts of n independent draws agree with each of some outcomes being *)
(* as likely as any other, and the rest impossible?                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, FiniteSetsExt
\* of what can happen: every c of cs is to be e
Near(c, e) == LET d == c - e IN d > -40000 /\ d < 40000 /\ d * d <= 49 * e + 200
RECURSIVE Root(_, _)
Root(n, r) == IF r * r >= n THEN r ELSE Root(n, r + 1)
\* sixteen times the squares of what is off, in units of what is expected
Squares2(cs, ix, e) == FoldSet(LAMBDA k, acc : acc + ((cs[k] - e) * (cs[k] - e) * 16) \div e, 0, ix)
\* the counts with indices ix are those that can be, all else is zero
Fair(cs, n, ix) ==
  LET e == n \div Cardinality(ix) IN
  /\ \A k \in DOMAIN cs \ ix : cs[k] = 0
  /\ \A k \in ix : Near(cs[k], e)
  /\ e >= 50 => Squares2(cs, ix, e) <= 16 * (Cardinality(ix) + 8 * Root(2 * Cardinality(ix), 1) + 8)
  /\ FoldSet(LAMBDA k, acc : acc + cs[k], 0, ix) = n

=============================================================================

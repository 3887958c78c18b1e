------------------------------- MODULE MCIndex -------------------------------
(***************************************************************************)
(* Arrangements laid out piece by piece; each complete one has its own     *)
(* number, and numbers and arrangements are counted alike.                 *)
(***************************************************************************)
EXTENDS Index, TLC
CONSTANTS K, Mp, B, Det
VARIABLES laid, spin
vars == <<laid, spin>>
Init == laid = <<>> /\ spin = <<>>
Lay(p, t) ==
  /\ Len(laid) < K
  /\ p \in (0..(Mp - 1)) \ { laid[i] : i \in DOMAIN laid }
  /\ (Det /\ Len(laid) = K - 1) => (Sum(spin) + t) % B = 0
  /\ laid' = Append(laid, p) /\ spin' = Append(spin, t)
Next == \E p \in 0..(Mp - 1), t \in 0..(B - 1) : Lay(p, t)
Spec == Init /\ [][Next]_vars

Complete == Len(laid) = K
Legal == Complete => IsArrangement(laid, spin, K, Mp, B, Det)
InRange == Complete => Rank(laid, spin, Mp, B, Det) \in 0..(Size(K, Mp, B, Det) - 1)
ThereAndBack == Complete => Unrank(Rank(laid, spin, Mp, B, Det), K, Mp, B, Det) = <<laid, spin>>
\* the numbers, counted up: none is left out
ASSUME \A r \in 0..(Size(K, Mp, B, Det) - 1) :
  LET a == Unrank(r, K, Mp, B, Det) IN
    IsArrangement(a[1], a[2], K, Mp, B, Det) /\ Rank(a[1], a[2], Mp, B, Det) = r
\* the sizes the real tables have
ASSUME Falling(8, 8) = 40320 /\ Power(3, 7) = 2187 /\ Size(8, 8, 3, TRUE) = 88179840
ASSUME Falling(12, 6) = 665280 /\ Power(2, 6) = 64 /\ Size(6, 12, 2, FALSE) = 42577920
\* complete arrangements and their beginnings
RECURSIVE Beginnings(_)
Beginnings(k) == IF k = 0 THEN 1 ELSE Falling(Mp, k) * Power(B, k) + Beginnings(k - 1)
Counted == TLCGet("stats").distinct = Size(K, Mp, B, Det) + Beginnings(K - 1)
=============================================================================

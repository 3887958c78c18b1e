-------------------------------- MODULE Drawn ---------------------------------
(***************************************************************************)
(* Turns and algs drawn at random.                                         *)
(*                                                                         *)
(* Values(k)   what a random value of kind k can be, each as likely        *)
(* An alg is drawn axis by axis: the first combined move is any of the 45, *)
(* each other one any of the 30 about another axis than the one before;    *)
(* when the alg is as long as asked for, what is left over is cut off.     *)
(***************************************************************************)
EXTENDS Words
Faces == (-3..3) \ {0}
Values(k, depth) ==
  CASE k = "turn" -> { <<f, a>> : f \in Faces, a \in 1..3 }
    [] k = "quarter" -> { <<f, d>> : f \in Faces, d \in {1, -1} }
    [] k = "wide" -> { <<f, a, d>> : f \in Faces, a \in 1..3, d \in 0..depth }
    [] k = "face" -> { <<f>> : f \in Faces }
    [] k = "axis" -> { <<x>> : x \in 1..3 }
    [] k = "direction" -> { <<d>> : d \in {1, -1} }
    [] k = "amount" -> { <<a>> : a \in 1..3 }
NextOf(groups) == IF groups = <<>> THEN Combined ELSE { c \in Combined : c[1] # groups[Len(groups)][1] }
Cut(groups, n) == LET w == Spell(groups) IN IF Len(w) <= n THEN w ELSE SubSeq(w, 1, n)
\* where group k starts
From(groups, k) == 1 + Len(Spell(SubSeq(groups, 1, k - 1)))
=============================================================================

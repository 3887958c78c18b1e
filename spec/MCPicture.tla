------------------------------ MODULE MCPicture -------------------------------
(***************************************************************************)
(* Filling a picture: twice is once, the order does not matter, only the   *)
(* squares of the kind change; a 3x3 picture with corners and edges is the *)
(* cube's own, and the corners of any other one agree with it.             *)
(***************************************************************************)
EXTENDS Picture
CONSTANT Most
VARIABLE far
ASSUME NetFacts /\ SheetFacts(S)
\* every point meant for a square is found in that square of that face only
ASSUME \A f \in SAxes, r \in 1..S, k \in 1..S :
         LET q == PlaceUnder(S, f, r, k) IN 
         \* half edges of a small cube: five halves of a fifth each
         LET five == [j \in Axes |-> 5 * q[j]] IN
           /\ Along(five, DownOf[f]) = 5 * (2 * r - S - 1)
           /\ Along(five, RightOf[f]) = 5 * (2 * k - S - 1)
ASSUME \A v \in (-5 * S)..(5 * S) : Cardinality(NearRow(v)) <= 1
MInit == PicInit /\ far = 0
MNext == \/ far < Most /\ far' = far + 1 /\ UNCHANGED pic /\ \E f \in SAxes, a \in 1..3 : Turn(f, a, 0)
         \/ \E kind \in {"corner", "edge"} : Fill(kind) /\ UNCHANGED far
MSpec == MInit /\ [][MNext]_<<cube, pic, far>>
Twice == \A kind \in {"corner", "edge"} : Paintable(kind) =>
           Filled(Filled(pic, kind, cube), kind, cube) = Filled(pic, kind, cube)
Order == S % 2 = 1 => Filled(Filled(pic, "corner", cube), "edge", cube) = Filled(Filled(pic, "edge", cube), "corner", cube)
Only == \A kind \in {"corner", "edge"} : Paintable(kind) =>
  LET p == Filled(pic, kind, cube) IN
  \A f \in SAxes, r \in 1..S, k \in 1..S :
    LET ends == Cardinality({ x \in {r, k} : x \in {1, S} }) IN
    \/ p[f][r][k] = pic[f][r][k]
    \/ kind = "corner" /\ r \in {1, S} /\ k \in {1, S}
    \/ kind = "edge" /\ (r \in {1, S}) # (k \in {1, S}) /\ {r, k} \cap {(S + 1) \div 2} # {}
Whole == LET p == Filled(pic, "corner", cube) IN
  /\ \A f \in SAxes : p[f][1][S] = Squares(cube)[f][1][3] /\ p[f][S][1] = Squares(cube)[f][3][1]
  /\ S = 3 => Filled(p, "edge", cube) = Squares(cube)
=============================================================================

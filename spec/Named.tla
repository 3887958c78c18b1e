-------------------------------- MODULE Named ---------------------------------
(***************************************************************************)
(* The algs that have names, by what they are known for.                   *)
(*                                                                         *)
(* Corners and rows of edges (edges, and wings, between two faces) of the  *)
(* top layer change places, rigidly about the vertical axis; no other      *)
(* corner, edge or wing moves, and no centre piece leaves its face.        *)
(***************************************************************************)
EXTENDS NCube
R == 1
U == 2
F == 3
L == -1
B == -3
Names == { "T", "J", "U" }
\* which corners and rows exchange or cycle: each goes to the next, the last to the first
CornerCycle(name) == IF name = "U" THEN <<>> ELSE << <<R, F>>, <<R, B>> >>
RowCycle(name) ==
  CASE name = "T" -> <<R, L>>
    [] name = "J" -> <<R, F>>
    [] name = "U" -> <<R, B, L>>
\* where the things at position k of a cycle go; backwards, if undone
After(k, len, back) == IF back THEN IF k = 1 THEN len ELSE k - 1 ELSE IF k = len THEN 1 ELSE k + 1
At(c, s) == CHOOSE k \in 1..Len(c) : c[k] = s
InCycle(c, s) == \E k \in 1..Len(c) : c[k] = s
\* the rotation about the vertical axis that takes all of these faces to those
About == { 1, FaceRotIdx[U][1], FaceRotIdx[U][2], FaceRotIdx[U][3] }
Taking(from, to) == CHOOSE r \in About : { Img(RotSeq[r], s) : s \in from } = to
\* Widened by d, every turn takes d more layers along: then the outer d + 1 layers on each side go together, and
\* blocks of pieces do what single pieces do otherwise.  The faces of the block a place belongs to:
BlockFaces(p, d) == { Sgn(p[i]) * i : i \in { x \in Axes : p[x] # 0 /\ Abs(p[x]) >= N - 1 - 2 * d } }
\* what happens to what is at place p: the rotations it may undergo
Fate(name, back, d, p) ==
  LET fs == BlockFaces(p, d)
      sides == fs \ {U}
  IN
  CASE Cardinality(fs) = 3 /\ U \in fs ->
         LET c == CornerCycle(name)
             here == { k \in 1..Len(c) : { c[k][1], c[k][2] } = sides }
         IN  IF here = {} THEN {1}
             ELSE LET k == CHOOSE k \in here : TRUE
                      to == c[After(k, Len(c), back)]
                  IN  { Taking(sides, { to[1], to[2] }) }
    [] Cardinality(fs) = 2 /\ U \in fs ->
         LET c == RowCycle(name)
             s == CHOOSE s \in sides : TRUE
         IN  IF ~InCycle(c, s) THEN {1} ELSE { Taking({s}, { c[After(At(c, s), Len(c), back)] }) }
    [] Cardinality(fs) = 1 -> LET f == CHOOSE f \in fs : TRUE IN { 1, FaceRotIdx[f][1], FaceRotIdx[f][2], FaceRotIdx[f][3] }
    [] OTHER -> {1}
FateT == TLCEval([name \in Names |-> [back \in BOOLEAN |-> [d \in 0..MaxDepth(N) |-> [j \in 1..P |-> Fate(name, back, d, Hs[j])]]]])
\* c after the alg of that name (or its inverse) may be such that every piece i now is in state g with Ok(i, g)
Does(name, back, d, c, Ok(_, _)) == \A i \in 1..P : \E r \in FateT[name][back][d][WhereT[i][c[i]]] : Ok(i, Mult[r][c[i]])

\* how they are usually written
Words == [
  T |-> << <<R,1>>, <<U,1>>, <<R,3>>, <<U,3>>, <<R,3>>, <<F,1>>, <<R,2>>, <<U,3>>, <<R,3>>, <<U,3>>, <<R,1>>, <<U,1>>, <<R,3>>, <<F,3>> >>,
  J |-> << <<R,1>>, <<U,1>>, <<R,3>>, <<F,3>>, <<R,1>>, <<U,1>>, <<R,3>>, <<U,3>>, <<R,3>>, <<F,1>>, <<R,2>>, <<U,3>>, <<R,3>>, <<U,3>> >>,
  U |-> << <<R,2>>, <<U,3>>, <<R,3>>, <<U,3>>, <<R,1>>, <<U,1>>, <<R,1>>, <<U,1>>, <<R,1>>, <<U,3>>, <<R,1>> >>,
  sexy |-> << <<R,1>>, <<U,1>>, <<R,3>>, <<U,3>> >> ]
AsTurns(w, d) == [k \in 1..Len(w) |-> [f |-> w[k][1], a |-> w[k][2], d |-> d]]
Backwards(w) == [k \in 1..Len(w) |-> << w[Len(w) + 1 - k][1], 4 - w[Len(w) + 1 - k][2] >>]
Order(name) == CASE name = "sexy" -> 6 [] name = "U" -> 3 [] OTHER -> 2
=============================================================================

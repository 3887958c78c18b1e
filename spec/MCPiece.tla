------------------------------- MODULE MCPiece -------------------------------
(***************************************************************************)
(* Every piece of the n x n x n cube on its own: all 24 states of each of  *)
(* the homes, under every turn.  A whole-cube turn is the product of these *)
(* steps, so what holds of each piece in each state holds of the cube.     *)
(***************************************************************************)
EXTENDS NCube
VARIABLES home, rot      \* index in Hs, index in RotSeq
pvars == <<cube, home, rot>>

\* NCube's Turned, for one piece
Step(g, i, f, a, d) == IF InTurnT[d][f][WhereT[i][g]] THEN Mult[FaceRotIdx[f][a]][g] ELSE g
Place(g, i) == Hs[WhereT[i][g]]
OrbitT == [i \in 1..P |-> Orbit(N, Hs[i])]

Init == home \in 1..P /\ rot = 1 /\ cube = <<>>
PTurn(f, a, d) == rot' = Step(rot, home, f, a, d) /\ UNCHANGED <<home, cube>>
PNext == \E f \in SAxes, a \in 1..3, d \in 0..MaxDepth(N) : PTurn(f, a, d)
Spec == Init /\ [][PNext]_pvars

D == 0..MaxDepth(N)
TypeOK == rot \in 1..NRots /\ home \in 1..P
\* a piece stays of its kind and at its depths
KeepsOrbit == OrbitT[WhereT[home][rot]] = OrbitT[home]
\* a turn moves a piece rigidly with the layer, or not at all, and it stays in the layer
Rigid == \A f \in SAxes, a \in 1..3, d \in D :
  LET s == Step(rot, home, f, a, d)
      in(g) == InTurnT[d][f][WhereT[home][g]]
  IN
    /\ in(rot) <=> in(s)
    /\ ~in(rot) => s = rot
    \* distance along the axis is kept
    /\ Place(s, home)[Abs(f)] = Place(rot, home)[Abs(f)]
    \* and the layers are the outermost d + 1 on that side
    /\ in(rot) <=> (Sgn(f) * Place(rot, home)[Abs(f)] > N - 1 - 2 * (d + 1))
Inverses == \A f \in SAxes, a \in 1..3, d \in D :
  Step(Step(rot, home, f, a, d), home, f, 4 - a, d) = rot
\* amounts add up
Amounts == \A f \in SAxes, a, b \in 1..3, d \in D :
  LET two == Step(Step(rot, home, f, a, d), home, f, b, d) IN
    IF (a + b) % 4 = 0 THEN two = rot ELSE two = Step(rot, home, f, (a + b) % 4, d)
\* turns about one axis commute
SameAxisCommute == \A f \in SAxes, a, b \in 1..3, d, e \in D :
  \A f2 \in {f, -f} :
    Step(Step(rot, home, f, a, d), home, f2, b, e) = Step(Step(rot, home, f2, b, e), home, f, a, d)
\* turning both halves of an even cube is turning the cube
WholeTurn == \A f \in SAxes, a \in 1..3 :
  (N % 2 = 0) =>
    Step(Step(rot, home, f, a, MaxDepth(N)), home, -f, 4 - a, MaxDepth(N)) = Mult[FaceRotIdx[f][a]][rot]
\* deeper turns move more
Monotone == \A f \in SAxes, d, e \in D :
  d <= e => (InTurnT[d][f][WhereT[home][rot]] => InTurnT[e][f][WhereT[home][rot]])
\* the observation tells two different states of a piece apart
ObsInjective == \A r \in 1..NRots : ObsT[home][r] = ObsT[home][rot] => r = rot
\* solved is looking solved: exactly when no sticker left its face
SolvedIsStickers == SolvedT[home][rot] <=>
  \A s \in Stickers(N, Hs[home]) : Img(RotSeq[rot], s) = s
\* all 24 states of every piece are reached
Reached == TLCGet("stats").distinct = P * NRots
=============================================================================

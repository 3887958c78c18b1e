------------------------------ MODULE Playground ------------------------------
(***************************************************************************)
(* The terminal playground: a held 3x3x3, and a person who types lines.    *)
(* A line that reads as an alg is done, and the cube's sheet is printed,   *)
(* in the cube's own frame (that of its core, however it is held); any     *)
(* other is answered with an error and changes nothing.                    *)
(***************************************************************************)
EXTENDS Held, Net
NN == INSTANCE Notation
AnyDepth == 1000000

VARIABLES sheet,     \* the sheet printed last
          wrong      \* was the last line answered with an error?
pvars == <<cube, core, sheet, wrong>>

Hand(c, o) == [cube |-> c, core |-> o]
\* the held cube after one move
Did(h, v) ==
  CASE v[1] \in {"turn", "wide"} ->
         LET d == IF v[1] = "turn" THEN 0 ELSE Min2(v[4], MaxLayers)
             r == FaceRotIdx[v[2]][v[3]]
         IN  Hand(MoveThose(h.cube, r, LAMBDA w : HTurnT[d][v[2]][w]),
                  IF CoreTurns(v[2], d) THEN Mult[r][h.core] ELSE h.core)
    [] v[1] = "slice" ->
         LET r == AxisRotIdx[v[2]][v[3]]
         IN  Hand(MoveThose(h.cube, r, LAMBDA w : SliceT[v[4]][v[2]][w]), Mult[r][h.core])
    [] v[1] = "rot" ->
         LET r == AxisRotIdx[v[2]][v[3]]
         IN  Hand([i \in 1..P |-> Mult[r][h.cube[i]]], Mult[r][h.core])
DidAll(h, vs) == FoldLeft(Did, h, vs)

\* the cube in its own frame
Own(h) == LET back == InvIdx[h.core] IN TLCEval([i \in 1..P |-> Mult[back][h.cube[i]]])
Heard(text) == NN!ReadLine("extended", AnyDepth, text)

PInit == HInit /\ sheet = Sheet(Solved) /\ wrong = FALSE
Line(text) ==
  LET s == Heard(text) IN
  IF s.ok
  THEN LET h == TLCEval(DidAll(Hand(cube, core), s.values)) IN
       cube' = h.cube /\ core' = h.core /\ sheet' = Sheet(Own(h)) /\ wrong' = FALSE
  ELSE wrong' = TRUE /\ UNCHANGED <<cube, core, sheet>>
\* something that is no text at all
Garbled == wrong' = TRUE /\ UNCHANGED <<cube, core, sheet>>
=============================================================================

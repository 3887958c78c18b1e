------------------------------- MODULE MCSpace -------------------------------
(***************************************************************************)
(* One rotation after another, applied to things of every kind at once.    *)
(* Whatever the way, they all turn as one rigid body.                      *)
(***************************************************************************)
EXTENDS Space
ASSUME SpaceFacts

VARIABLES
  rot,      \* the rotation of space so far
  face, axis, corner, mark, edge,
  face0, corner0, mark0, edge0,    \* how they were at first
  last, prev   \* the last rotation, and what face and edge were before it
vars == <<rot, face, axis, corner, mark, edge, face0, corner0, mark0, edge0, last, prev>>

Init ==
  /\ rot = IdRot /\ last = <<1, 0>>
  /\ face0 \in SAxes /\ corner0 \in {<<1,1,1>>, <<1,-1,1>>} /\ mark0 \in Axes
  /\ edge0 \in { o \in EdgeSpots : Normal(o) \in {1, 3} /\ o[2] > 0 }
  /\ face = face0 /\ axis = Abs(face0) /\ corner = corner0 /\ mark = mark0 /\ edge = edge0
  /\ prev = <<face0, edge0, corner0, mark0>>

Rotate(x, a) ==
  LET r == RotAbout(x, a) IN
  /\ rot' = Comp(r, rot) /\ last' = <<x, a>>
  /\ prev' = <<face, edge, corner, mark>>
  /\ face' = Img(r, face)
  /\ axis' = Abs(Img(r, axis))
  /\ corner' = Apply(r, corner)
  /\ mark' = Abs(Img(r, mark))
  /\ edge' = EdgeTable[edge][r]
  /\ UNCHANGED <<face0, corner0, mark0, edge0>>
Next == \E x \in Axes, a \in Amounts : Rotate(x, a)
Spec == Init /\ [][Next]_vars

Alone == <<rot, face0, corner0, mark0, edge0>>

Rigid ==
  /\ face = Img(rot, face0) /\ corner = Apply(rot, corner0)
  /\ axis = Abs(face) /\ mark = Abs(Img(rot, mark0))
  /\ SubSeq(edge, 1, 3) = Apply(rot, SubSeq(edge0, 1, 3))
  /\ \A h \in EdgeHomes : Obs(3, h, IdRot) = edge0 => edge = Obs(3, h, rot)
\* what holds in one body holds after rotating it
Faithful ==
  /\ OnFace(face, corner) = OnFace(face0, corner0)
  /\ OnFace(face, SubSeq(edge, 1, 3)) = OnFace(face0, SubSeq(edge0, 1, 3))
  /\ TwistsOf(corner, Twisted(corner, mark)) = (TwistsOf(corner, mark) + 1) % 3
  /\ Abs(Img(Third3(corner), mark)) = Abs(Img(rot, Twisted(corner0, mark0)))
  /\ FacesOf(corner) = { Img(rot, s) : s \in FacesOf(corner0) }
\* the opposite rotation brings everything back, and a half turn is its own
Undone ==
  LET r == RotAbout(last[1], 4 - last[2]) IN
  last[2] # 0 => /\ Img(r, face) = prev[1] /\ EdgeTable[edge][r] = prev[2]
                 /\ Apply(r, corner) = prev[3] /\ Abs(Img(r, mark)) = prev[4]
All == TLCGet("stats").distinct = 24 * 6 * 2 * 3 * Cardinality({ o \in EdgeSpots : Normal(o) \in {1, 3} /\ o[2] > 0 })
=============================================================================

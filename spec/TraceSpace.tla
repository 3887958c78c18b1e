------------------------------ MODULE TraceSpace ------------------------------
(***************************************************************************)
(* A recorded run.                                                         *)
(*   call op args out    a question about faces, axes, ... and its answer  *)
(*   start obj / rotate x a obj   things of all kinds, rotated again and   *)
(*                       again; obj is how they then are                   *)
(* Faces are signed axes, directions 1 and -1, edges <<x, y, z, mark>>,    *)
(* corners <<x, y, z, mark>>, nothing 0.                                   *)
(***************************************************************************)
EXTENDS Space, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, obj
T == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1

Place(o) == SubSeq(o, 1, 3)
CornerAfter(o, r) == Apply(r, Place(o)) \o <<Abs(Img(r, o[4]))>>
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
R(x, a) == RotAbout(x, a)
Bit(b) == IF b THEN 1 ELSE 0
Num(f) == CHOOSE i \in 1..6 : FaceSeq[i] = f

\* the answer to a question
Answer(op, g) ==
  CASE op = "face.new"        -> g[1] * g[2]
    [] op = "face.rotated"    -> Img(R(g[2], g[3]), g[1])
    [] op = "face.next"       -> Img(R(g[2], 1), g[1])
    [] op = "face.prev"       -> Img(R(g[2], 3), g[1])
    [] op = "face.opposite"   -> -g[1]
    [] op = "face.cross"      -> CrossAxis(g[1], g[2])
    [] op = "face.vector"     -> Unit(g[1])
    [] op = "face.index"      -> Num(g[1]) - 1
    [] op = "face.name"       -> Num(g[1])
    [] op = "face.all"        -> FaceSeq
    [] op = "face.hascorner"  -> Bit(OnFace(g[1], g[2]))
    [] op = "face.hasedge"    -> Bit(OnFace(g[1], Place(g[2])))
    [] op = "axis.rotated"    -> Abs(Img(R(g[2], g[3]), g[1]))
    [] op = "axis.vector"     -> Unit(g[1])
    [] op = "axis.basis"      -> Basis(g[1])
    [] op = "axis.next"       -> NextAxis(g[1])
    [] op = "axis.prev"       -> PrevAxis(g[1])
    [] op = "axis.along"      -> Along(g[1], g[2])
    [] op = "axis.offset"     -> Offset(g[1], g[2])
    [] op = "axis.handed"     -> Handed(g[1], g[2])
    [] op = "axis.other"      -> Third(g[1], g[2])
    [] op = "axis.slice"      -> \* swaps and marks the two coordinates of the slice
         LET b == Basis(g[1]) IN [g[2] EXCEPT ![b[1]] = 100 + g[2][b[2]], ![b[2]] = 200 + g[2][b[1]]]
    [] op = "axis.at"         -> g[2][g[1]]
    [] op = "axis.put"        -> [g[2] EXCEPT ![g[1]] = 77]
    [] op = "dir.neg"         -> -g[1]
    [] op = "dir.scalar"      -> g[1]
    [] op = "vec.rotated"     -> Apply(R(g[2], g[3]), g[1])
    [] op = "vec2.rotated"    -> SubSeq(Apply(R(3, g[2]), g[1] \o <<0>>), 1, 2)
    [] op = "corner.rotated"  -> CornerAfter(g[1], R(g[2], g[3]))
    [] op = "edge.rotated"    -> EdgeTable[g[1]][R(g[2], g[3])]
    [] op = "wing.rotated"    -> Apply(R(g[2], g[3]), g[1])
    [] op = "rot.inverse"     -> <<g[1], 4 - g[2]>>
    [] op = "rot.flips"       -> Bit(Flips(R(g[1], g[2]), g[3]))
    [] op = "rot.from"        -> <<Abs(g[1]), Directed(g[2], Sgn(g[1]))>>
    [] op = "move.rotated"    -> <<Img(R(g[3], g[4]), g[1]), g[2]>>
    [] op = "move.inverse"    -> <<g[1], 4 - g[2]>>
    [] op = "alg.rotated"     -> [i \in 1..Len(g[1]) |-> <<Img(R(g[2], g[3]), g[1][i][1]), g[1][i][2]>>]
    [] op = "amount.times"    -> Directed(g[1], g[2])
    [] op = "amount.plus"     -> Added(g[1], g[2])
    [] op = "amount.from"     -> Directed(1, g[1])
    [] op = "corner.faces"    -> Sorted(FacesOf(Place(g[1])))
    [] op = "corner.next"     -> Twisted(Place(g[1]), g[1][4])
    [] op = "corner.twist"    -> Place(g[1]) \o <<Twisted(Place(g[1]), g[1][4])>>
    [] op = "corner.twists"   -> TwistsOf(Place(g[1]), g[1][4])
    [] op = "corner.oriented" -> Bit(g[1][4] = 2)
    [] op = "corner.coords"   -> Place(g[1])
    [] op = "edge.faces"      -> Sorted(FacesOf(Place(g[1])))
    [] op = "edge.between"    -> IF Abs(g[1]) = Abs(g[2]) THEN <<0, 0, 0>> ELSE Between(g[1], g[2])
    [] op = "edge.made"       -> IF Abs(g[1]) = Abs(g[2]) THEN <<0, 0, 0, 0>> ELSE [i \in 1..4 |-> IF i = 4 THEN 1 ELSE 2 * Between(g[1], g[2])[i]]
    [] op = "edge.markface"   -> MarkFace(Place(g[1]))
    [] op = "edge.otherface"  -> OtherFace(Place(g[1]))
    [] op = "edge.towards"    -> Sgn(g[1][g[2]])
    [] op = "edge.flipped"    -> [g[1] EXCEPT ![4] = 1 - g[1][4]]
    [] op = "edge.coords"     -> [i \in Axes |-> Sgn(g[1][i])]
    [] op = "wing.made"       -> \* on two faces, on the side of the third axis that d says
         IF Abs(g[1]) = Abs(g[2]) THEN <<0, 0, 0>>
         ELSE [i \in Axes |-> IF i = Third(g[1], g[2]) THEN g[3] ELSE 3 * Between(g[1], g[2])[i]]
    [] op = "cedge.made"      -> \* in the middle of face f, towards face s
         IF Abs(g[1]) = Abs(g[2]) THEN <<0, 0, 0>>
         ELSE [i \in Axes |-> IF i = Abs(g[1]) THEN 4 * Sgn(g[1]) ELSE IF i = Abs(g[2]) THEN 2 * Sgn(g[2]) ELSE 0]
    [] op = "axis.plane"      -> SelectSeq(g[2], LAMBDA x: x # g[2][g[1]])
    [] op = "cube.size"       -> g[1]
    [] op = "cwing.pair"      -> \* the two centre pieces of face f next to face s off its middle, in order
        LET at(d) == [i \in Axes |-> IF i = Abs(g[1]) THEN 5 * Sgn(g[1]) ELSE IF i = Abs(g[2]) THEN 3 * Sgn(g[2]) ELSE d]
        IN  at(-1) \o at(1)
    [] op = "centre.axes"     -> \* main, side and normal axis of a centre piece
         <<Abs(g[1]), Along(Abs(g[1]), g[2]), Along(Abs(g[1]), -g[2])>>

TInit == l = 1 /\ obj = <<>>
TCall == IsEvent("call") /\ T.out = Answer(T.op, T.args) /\ UNCHANGED obj
TStart == IsEvent("start") /\ obj' = T.obj
After(o, r) ==
  [faces   |-> [i \in 1..Len(o.faces) |-> Img(r, o.faces[i])],
   axes    |-> [i \in 1..Len(o.axes) |-> Abs(Img(r, o.axes[i]))],
   vecs    |-> [i \in 1..Len(o.vecs) |-> Apply(r, o.vecs[i])],
   corners |-> [i \in 1..Len(o.corners) |-> CornerAfter(o.corners[i], r)],
   edges   |-> [i \in 1..Len(o.edges) |-> EdgeTable[o.edges[i]][r]],
   places  |-> [i \in 1..Len(o.places) |-> Apply(r, o.places[i])],
   alg     |-> [i \in 1..Len(o.alg) |-> <<Img(r, o.alg[i][1]), o.alg[i][2]>>]]
TRotate == IsEvent("rotate") /\ obj' = After(obj, R(T.x, T.a)) /\ T.obj = obj'
TNext == TCall \/ TStart \/ TRotate
TSpec == TInit /\ [][TNext]_<<l, obj>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Rigid geometry of the cube.                                             *)
(*                                                                         *)
(* Space is right-handed, x = right, y = up, z = front.  A SIGNED AXIS is  *)
(* one of -3..3 \ {0}; it names a unit vector, a face of the cube and the  *)
(* colour of that face:  1 = R, -1 = L, 2 = U, -2 = D, 3 = F, -3 = B.      *)
(*                                                                         *)
(* A ROTATION is a triple <<a,b,c>> of signed axes: the images of x, y, z. *)
(* The 24 proper rotations form the group Rots, generated by Quarter[i],   *)
(* the clockwise quarter turn seen from the positive end of axis i.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

Axes == 1..3
SAxes == (-3..3) \ {0}
FaceSeq == <<1, 2, 3, -1, -2, -3>>       \* R U F L D B

IdRot == <<1, 2, 3>>

\* image of a signed axis
Img(r, s) == IF s > 0 THEN r[s] ELSE -r[-s]

\* a after b
Comp(a, b) == <<Img(a, b[1]), Img(a, b[2]), Img(a, b[3])>>

\* image of a vector
Apply(r, p) ==
  [j \in Axes |-> LET i == CHOOSE k \in Axes : Abs(r[k]) = j
                  IN  Sgn(r[i]) * p[i]]

Quarter == << <<1, -3, 2>>, <<3, 2, -1>>, <<-2, 1, 3>> >>

RECURSIVE Pow(_, _)
Pow(r, k) == IF k = 0 THEN IdRot ELSE Comp(r, Pow(r, k - 1))

\* k clockwise quarter turns (k taken modulo 4) seen from the positive end
RotAbout(axis, k) == Pow(Quarter[axis], k % 4)

\* amount clockwise quarter turns seen from outside face f
FaceRot(f, amount) == RotAbout(Abs(f), IF f > 0 THEN amount ELSE 4 - amount)

InvRot(r) == CHOOSE q \in [Axes -> SAxes] : Comp(q, r) = IdRot

\* All rotations: a signed permutation of determinant one.
SignedPerms == { r \in [Axes -> SAxes] : {Abs(r[1]), Abs(r[2]), Abs(r[3])} = Axes }
\* vector product of two signed axes (0 when parallel)
CrossAxis(a, b) ==
  IF Abs(a) = Abs(b) THEN 0
  ELSE LET c == 6 - Abs(a) - Abs(b)
           even == <<Abs(a), Abs(b)>> \in {<<1,2>>, <<2,3>>, <<3,1>>}
       IN  Sgn(a) * Sgn(b) * (IF even THEN c ELSE -c)
Rots == { r \in { <<q[1], q[2], q[3]>> : q \in SignedPerms } : r[3] = CrossAxis(r[1], r[2]) }

RotLess(a, b) ==
  LET key(r) == (r[1] + 3) * 49 + (r[2] + 3) * 7 + (r[3] + 3) IN key(a) < key(b)

\* a fixed enumeration of the group, identity first
RotSeq == <<IdRot>> \o SetToSortSeq(Rots \ {IdRot}, RotLess)
NRots == 24
RotIdx(r) == CHOOSE i \in 1..NRots : RotSeq[i] = r

\* multiplication table on indices: Mult[a][b] = index of (a after b)
Mult == [a \in 1..NRots |-> [b \in 1..NRots |-> RotIdx(Comp(RotSeq[a], RotSeq[b]))]]
InvIdx == [a \in 1..NRots |-> CHOOSE b \in 1..NRots : Mult[a][b] = 1]

\* index of FaceRot(f, amount), tabulated
FaceRotIdx == [f \in SAxes |-> [a \in 1..3 |-> RotIdx(FaceRot(f, a))]]
AxisRotIdx == [x \in Axes |-> [a \in 1..3 |-> RotIdx(RotAbout(x, a))]]

(* -------- facts about the group, evaluated by TLC at start-up ---------- *)
GroupFacts ==
  /\ Cardinality(Rots) = NRots
  /\ \A i \in Axes : Quarter[i] \in Rots
  /\ \A a, b \in Rots : Comp(a, b) \in Rots
  /\ \A i \in Axes : Pow(Quarter[i], 4) = IdRot /\ Pow(Quarter[i], 2) # IdRot
  \* opposite faces turn opposite ways, and stay opposite under rotation
  /\ \A f \in SAxes, k \in 1..3 : FaceRot(-f, k) = FaceRot(f, 4 - k)
  \* a turn keeps its own face, and a rotation preserves right-handedness
  /\ \A f \in SAxes, k \in 1..3 : Img(FaceRot(f, k), f) = f
  /\ \A r \in Rots : \A a, b \in SAxes :
        Abs(a) # Abs(b) => Img(r, CrossAxis(a, b)) = CrossAxis(Img(r, a), Img(r, b))
  \* clockwise seen from the front: up goes right, right goes down
  /\ Img(FaceRot(3, 1), 2) = 1 /\ Img(FaceRot(3, 1), 1) = -2
  /\ Img(FaceRot(1, 1), 3) = 2 /\ Img(FaceRot(2, 1), 3) = -1
  \* Apply agrees with Img on unit vectors and is a homomorphism
  /\ LET unit(s) == [j \in Axes |-> IF j = Abs(s) THEN Sgn(s) ELSE 0]
     IN  \A r \in Rots, s \in SAxes : Apply(r, unit(s)) = unit(Img(r, s))
=============================================================================

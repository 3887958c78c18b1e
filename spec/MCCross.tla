------------------------------- MODULE MCCross --------------------------------
(***************************************************************************)
(* All states of the cross of a face, outwards from the cross in order of  *)
(* the number of turns (one worker: breadth first).  Each is written out   *)
(* with its number of turns.                                               *)
(***************************************************************************)
EXTENDS Cross, CSV
CONSTANTS FaceNo, OutFile
Face == FaceSeq[FaceNo]
E1 == Edges(Face)[1]
E2 == Edges(Face)[2]
E3 == Edges(Face)[3]
E4 == Edges(Face)[4]
M1 == Moves[E1]
M2 == Moves[E2]
M3 == Moves[E3]
M4 == Moves[E4]
VARIABLES state, turns
Init == state = Crossed /\ turns = 0
Next == \E m \in 1..18 :
          /\ state' = Code(M1[m][Part(state, 1)], M2[m][Part(state, 2)], M3[m][Part(state, 3)], M4[m][Part(state, 4)])
          /\ turns' = turns + 1
Alone == state            \* VIEW: a state counts once, as first reached
Out == OutFile # "" => CSVWrite("%1$s,%2$s", <<state, turns>>, OutFile)
\* no edge needs more turns alone than the cross; the cross alone needs none
S1 == Steps[E1]
S2 == Steps[E2]
S3 == Steps[E3]
S4 == Steps[E4]
Most == Max2(Max2(S1[Part(state, 1)], S2[Part(state, 2)]), Max2(S3[Part(state, 3)], S4[Part(state, 4)]))
NeverMore == Most <= turns
ZeroOnly == (Most = 0) <=> (turns = 0)
\* turning only rearranges: four different places
Places == Cardinality({ At[E1][Part(state, 1)], At[E2][Part(state, 2)], At[E3][Part(state, 3)], At[E4][Part(state, 4)] }) = 4
ASSUME \A f \in SAxes : Len(Edges(f)) = 4
\* 12 * 11 * 10 * 9 places and 2^4 ways round; eight turns always do
All == TLCGet("stats").distinct = 190080 /\ TLCGet("stats").diameter = 9
=============================================================================

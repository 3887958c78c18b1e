-------------------------------- MODULE Export -------------------------------
(* Serialises the tables of the specification that the conformance harness   *)
(* replays into the implementation.  Nothing is decided here: the tables are *)
(* the operators of Geometry and CubeDefs, evaluated.                        *)
EXTENDS Legal, Json, IOUtils

CONSTANT Sizes, OutFile

ASSUME GroupFacts
ASSUME \A n \in Sizes : PieceFacts(n)
ASSUME \A n \in Sizes : n <= 3 => LawFacts(n)

SizeRec(n) ==
  LET hs == HomeSeqOf(n) IN
  [ n |-> n,
    homes |-> hs,
    kinds |-> [i \in DOMAIN hs |-> Kind(n, hs[i])],
    orbits |-> [i \in DOMAIN hs |-> Orbit(n, hs[i])],
    obs |-> [i \in DOMAIN hs |-> [g \in 1..NRots |-> Obs(n, hs[i], RotSeq[g])]],
    solved |-> [i \in DOMAIN hs |-> [g \in 1..NRots |-> LooksSolved(n, hs[i], RotSeq[g])]],
    twist |-> [i \in DOMAIN hs |-> [g \in 1..NRots |-> TwistOf(n, hs[i], RotSeq[g])]],
    flip |-> [i \in DOMAIN hs |-> [g \in 1..NRots |-> FlipOf(n, hs[i], RotSeq[g])]],
    \* where[i][g]: index of the home whose place piece i occupies in state g
    where |-> [i \in DOMAIN hs |-> [g \in 1..NRots |->
                 CHOOSE j \in DOMAIN hs : hs[j] = Apply(RotSeq[g], hs[i])]],
    \* inturn[depth+1][face as in FaceSeq]: which places the turn moves
    inturn |-> [d \in 1..(n + 2) |-> [f \in 1..6 |->
                 [i \in DOMAIN hs |-> InTurn(n, hs[i], FaceSeq[f], d - 1)]]],
    \* slice[wide, narrow][axis]: which places a slice turn moves
    slice |-> [k \in 1..2 |-> [x \in Axes |-> [i \in DOMAIN hs |-> InSlice(n, hs[i], x, k = 2)]]],
    \* coreturns[depth+1][face]: does the turn carry the core along?
    coreturns |-> [d \in 1..(n + 2) |-> [f \in 1..6 |->
                    n % 2 = 1 /\ InTurn(n, <<0, 0, 0>>, FaceSeq[f], d - 1)]],
    \* layer of each place along each axis, 0 = negative end
    layer |-> [i \in DOMAIN hs |-> [a \in Axes |-> (hs[i][a] + n - 1) \div 2]],
    maxdepth |-> MaxDepth(n) ]

Tables ==
  [ rots |-> RotSeq,
    mult |-> Mult,
    inv |-> InvIdx,
    faces |-> FaceSeq,
    facerot |-> [f \in 1..6 |-> [a \in 1..3 |-> FaceRotIdx[FaceSeq[f]][a]]],
    axisrot |-> AxisRotIdx,
    sizes |-> SetToSeq({ SizeRec(n) : n \in Sizes }) ]

ASSUME JsonSerialize(OutFile, Tables)

VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE
=============================================================================

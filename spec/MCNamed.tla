------------------------------- MODULE MCNamed --------------------------------
(***************************************************************************)
(* After some turns, the alg of a name is done turn by turn, or undone,    *)
(* again and again.                                                        *)
(***************************************************************************)
EXTENDS Named, TLC
CONSTANT Before
VARIABLES start, name, back, deep, at, times
nvars == <<cube, start, name, back, deep, at, times>>
NInit == CubeInit /\ start = Solved /\ name = "" /\ back = FALSE /\ deep = 0 /\ at = 0 /\ times = 0
Scramble == name = "" /\ at < Before /\ (\E f \in SAxes, a \in 1..3, d \in 0..MaxDepth(N) : Turn(f, a, d)) /\ at' = at + 1
            /\ UNCHANGED <<start, name, back, deep, times>>
Begin == name = "" /\ name' \in Names \cup {"sexy"} /\ back' \in BOOLEAN /\ deep' \in 0..MaxDepth(N) /\ start' = cube /\ at' = 1 /\ UNCHANGED <<cube, times>>
Word == IF back THEN Backwards(Words[name]) ELSE Words[name]
Step == name # "" /\ times < Order(name)
        /\ Turn(Word[at][1], Word[at][2], deep)
        /\ (IF at = Len(Word) THEN at' = 1 /\ times' = times + 1 ELSE at' = at + 1 /\ times' = times)
        /\ UNCHANGED <<start, name, back, deep>>
NNext == Scramble \/ Begin \/ Step
NSpec == NInit /\ [][NNext]_nvars
\* once
Known == name \in Names /\ times = 1 /\ at = 1 => Does(name, back, deep, start, LAMBDA i, g : cube[i] = g)
\* often enough, everything is where it was, but that centre pieces may have moved about in their block
Stays(c, d) == \A i \in 1..P : LET h == Hs[WhereT[i][c[i]]] IN
  /\ BlockFaces(Hs[WhereT[i][d[i]]], deep) = BlockFaces(h, deep)
  /\ Cardinality(BlockFaces(h, deep)) >= 2 => c[i] = d[i]
Returns == name # "" /\ times = Order(name) => Stays(start, cube)
\* and not earlier (U does nothing to a cube without edges)
NotEarlier == (2 * deep + 2 < N \/ name # "U") /\ name # "" /\ times \in 1..(Order(name) - 1) /\ at = 1 => ~Stays(start, cube)
=============================================================================

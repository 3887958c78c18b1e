------------------------------ MODULE ExportNet -------------------------------
(* Which place is under each square, which colour a piece shows, and which     *)
(* face and square are where on the sheet.                                     *)
EXTENDS Net, Json
CONSTANT OutFile
ASSUME NetFacts
ASSUME JsonSerialize(OutFile,
  [ squares |-> [f \in 1..6 |-> SquareT[FaceSeq[f]]],
    shows |-> [g \in 1..NRots |-> [f \in 1..6 |-> ShowsT[g][FaceSeq[f]]]],
    sheet |-> [row \in 1..Rows |-> [col \in 1..Cols |-> FaceAt(row, col)]] ])
VARIABLE done
XInit == done = FALSE /\ CubeInit
XNext == done = FALSE /\ done' = TRUE /\ UNCHANGED cube
XSpec == XInit /\ [][XNext]_<<done, cube>>
=============================================================================

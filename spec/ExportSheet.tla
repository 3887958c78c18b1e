----------------------------- MODULE ExportSheet ------------------------------
(* For each size: the place under each square, and the face of each square of  *)
(* the sheet.                                                                   *)
EXTENDS Sheet, Json
CONSTANTS Sizes, OutFile
ASSUME \A n \in Sizes : SheetFacts(n)
ASSUME JsonSerialize(OutFile, [ i \in 1..Cardinality(Sizes) |->
  LET n == SetToSortSeq(Sizes, <)[i] IN
  [ size |-> n,
    places |-> [f \in 1..6 |-> [r \in 1..n |-> [c \in 1..n |-> PlaceUnder(n, FaceSeq[f], r, c)]]],
    sheet |-> [row \in 1..RowsOf(n) |-> [col \in 1..ColsOf(n) |-> FaceOn(n, row, col)]] ]])
VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE
=============================================================================

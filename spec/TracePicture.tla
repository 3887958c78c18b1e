----------------------------- MODULE TracePicture -----------------------------
(***************************************************************************)
(* A recorded session with a picture of S x S squares per face and a       *)
(* 3x3x3 whose pieces are painted into it.                                 *)
(*   fresh | turn f a | fill kind                                          *)
(*   ask f p col       the colour at a point (0: nothing there)            *)
(*   paint f p col     the square at a point painted                       *)
(*   flood f col       a face replaced by one of a single colour           *)
(*   put f r c col     a square painted by its row and column              *)
(*   look squares sheet    all squares, R U F L D B by rows, and what is   *)
(*                     printed                                             *)
(* Points in fifths of the distance between neighbouring squares.          *)
(***************************************************************************)
EXTENDS Picture, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
TInit == PicInit /\ l = 1
TFresh == IsEvent("fresh") /\ pic' = Fresh /\ UNCHANGED cube
TTurn == IsEvent("turn") /\ Turn(T.f, T.a, 0) /\ UNCHANGED pic
TFill == IsEvent("fill") /\ Fill(T.kind)
\* where the next square would be, if there were one, is too far
Far(f) == \E s \in {DownOf[f], RightOf[f]} : 2 * Abs(Along(T.p, s)) >= 5 * (S + 1)
TAsk == /\ IsEvent("ask") /\ UNCHANGED pvars
        /\ \/ Far(T.f) /\ T.col = 0
           \/ \E q \in SquareAt(T.f, T.p) : T.col = pic[T.f][q[1]][q[2]]
TPaint == /\ IsEvent("paint")
          /\ \E q \in SquareAt(T.f, T.p) : Paint(T.f, q[1], q[2], T.col)
TPut == IsEvent("put") /\ Paint(T.f, T.r, T.c, T.col)
TFlood == IsEvent("flood") /\ pic' = [pic EXCEPT ![T.f] = [r \in 1..S |-> [c \in 1..S |-> T.col]]] /\ UNCHANGED cube
TLook == /\ IsEvent("look") /\ UNCHANGED pvars
         /\ \A f \in 1..6 : T.squares[f] = pic[FaceSeq[f]]
         /\ T.sheet = SheetOf(S, pic)
TNext == TFresh \/ TTurn \/ TFill \/ TAsk \/ TPaint \/ TPut \/ TFlood \/ TLook
TSpec == TInit /\ [][TNext]_<<cube, pic, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

--------------------------- MODULE ExportNotation ----------------------------
(* The reader as a table: per kind its states, moves and values.             *)
EXTENDS Notation, TLC, Json
CONSTANT OutFile
Chars == DOMAIN FaceOf \cup DOMAIN SmallOf \cup DOMAIN AxisOf \cup DOMAIN SliceOf \cup DOMAIN NarrowOf
              \cup DOMAIN DigitOf \cup {"w", "'"}
RECURSIVE Grow(_, _)
Grow(kind, S) ==
  LET T == S \cup ({ Read(kind, s, c) : s \in S, c \in Chars } \ {Dead})
  IN  IF T = S THEN S ELSE Grow(kind, T)
Table(kind) ==
  LET sq == <<Begin>> \o SetToSeq(Grow(kind, {Begin}) \ {Begin})
      ix == [s \in ToSet(sq) |-> CHOOSE i \in DOMAIN sq : sq[i] = s]
  IN  [ kind |-> kind,
        values |-> [i \in DOMAIN sq |-> ValueAt(kind, sq[i])],
        moves |-> SetToSeq(UNION { { <<i, c, ix[Read(kind, sq[i], c)]>> : c \in { e \in Chars : Read(kind, sq[i], e) # Dead } }
                             : i \in DOMAIN sq }) ]
ASSUME JsonSerialize(OutFile, [kinds |-> SetToSeq({ Table(k) : k \in Kinds }), white |-> SetToSeq(White)])
VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================

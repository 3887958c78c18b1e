------------------------------ MODULE Notation -------------------------------
(***************************************************************************)
(* Move notation.                                                          *)
(*                                                                         *)
(* Twice, independently: as a finite LANGUAGE (which texts denote which    *)
(* values) and as a READER, an automaton that reads one character at a     *)
(* time.  MCNotation shows that they agree.  The automaton is what the     *)
(* implementation's parsers and printers are compared with.                *)
(*                                                                         *)
(* A character is a string of length one, or "U+..." outside ASCII.        *)
(* A value is a tuple that begins with its sort:                           *)
(*   <<"amount", a>>  <<"depth", d>>  <<"face", f>>  <<"axis", x>>         *)
(*   <<"turn", f, a>>  <<"wide", f, a, d>>  <<"rot", x, a>>                *)
(*   <<"slice", x, a, narrow>>                                             *)
(* f is a signed axis (R U F = 1 2 3, L D B = -1 -2 -3), a counts quarter  *)
(* turns, d counts the layers beyond the outermost.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Kinds == {"amount", "depth", "face", "axis", "turn", "wide", "rotation", "extended"}

FaceOf == [R |-> 1, U |-> 2, F |-> 3, L |-> -1, D |-> -2, B |-> -3]
SmallOf == [r |-> 1, u |-> 2, f |-> 3, l |-> -1, d |-> -2, b |-> -3]
AxisOf == [x |-> 1, y |-> 2, z |-> 3]
\* a slice follows L, D and F: about which axis, and clockwise seen from where
SliceOf == [M |-> -1, E |-> -2, S |-> 3]
NarrowOf == [m |-> -1, e |-> -2, s |-> 3]
DigitOf == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
              CHOOSE i \in 0..9 : <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[i + 1] = c]
AmountOf == [c \in {"2", "'"} |-> IF c = "2" THEN 2 ELSE 3]

Abs0(i) == IF i < 0 THEN -i ELSE i
AtLeast1(i) == IF i < 1 THEN 1 ELSE i

(* ----------------------------- the language ----------------------------- *)
Amounts == { <<<<>>, 1>>, <<<<"2">>, 2>>, <<<<"'">>, 3>> }
Then(heads) == { <<h[1] \o a[1], h[2], a[2]>> : h \in heads, a \in Amounts }
\* <<text, face, depth>>
WideHeads ==
  LET pre == { <<<<>>, 0>> } \cup { <<<<c>>, DigitOf[c]>> : c \in DOMAIN DigitOf }
  IN  { <<p[1] \o <<c, "w">>, <<FaceOf[c], AtLeast1(p[2])>>>> : p \in pre, c \in DOMAIN FaceOf }
        \cup { <<p[1] \o <<c>>, <<SmallOf[c], AtLeast1(p[2])>>>> : p \in pre, c \in DOMAIN SmallOf }
\* the amount as seen from the positive end of the axis
Seen(s, a) == IF s > 0 THEN a ELSE 4 - a

Turns == { <<t[1], <<"turn", t[2], t[3]>>>> : t \in Then({ <<<<c>>, FaceOf[c]>> : c \in DOMAIN FaceOf }) }
Wides == { <<t[1], <<"wide", t[2][1], t[3], t[2][2]>>>> : t \in Then(WideHeads) }
Rotations == { <<t[1], <<"rot", t[2], t[3]>>>> : t \in Then({ <<<<c>>, AxisOf[c]>> : c \in DOMAIN AxisOf }) }
Slices ==
  { <<t[1], <<"slice", Abs0(t[2]), Seen(t[2], t[3]), FALSE>>>> :
       t \in Then({ <<<<c>>, SliceOf[c]>> : c \in DOMAIN SliceOf }) } \cup
  { <<t[1], <<"slice", Abs0(t[2]), Seen(t[2], t[3]), TRUE>>>> :
       t \in Then({ <<<<c>>, NarrowOf[c]>> : c \in DOMAIN NarrowOf }) }

\* the texts of a kind with what each denotes
Language(kind) ==
  CASE kind = "amount" -> { <<a[1], <<"amount", a[2]>>>> : a \in Amounts }
    [] kind = "depth" -> { <<<<>>, <<"depth", 0>>>> } \cup { <<<<c>>, <<"depth", DigitOf[c]>>>> : c \in DOMAIN DigitOf }
    [] kind = "face" -> { <<<<c>>, <<"face", FaceOf[c]>>>> : c \in DOMAIN FaceOf }
    [] kind = "axis" -> { <<<<c>>, <<"axis", AxisOf[c]>>>> : c \in DOMAIN AxisOf }
    [] kind = "turn" -> Turns
    [] kind = "wide" -> Wides \cup { <<t[1], <<"wide", t[2][2], t[2][3], 0>>>> : t \in Turns }
    [] kind = "rotation" -> Rotations
    [] kind = "extended" -> Turns \cup Wides \cup Rotations \cup Slices

(* ------------------------------ the reader ------------------------------ *)
NoValue == <<"none">>
Dead == <<"dead">>
Begin == <<"begin">>

\* the state after reading the character c
Read(kind, at, c) ==
  CASE at[1] = "begin" ->
         (CASE kind = "amount" /\ c \in DOMAIN AmountOf -> <<"end", <<"amount", AmountOf[c]>>>>
            [] kind = "depth" /\ c \in DOMAIN DigitOf -> <<"end", <<"depth", DigitOf[c]>>>>
            [] kind = "face" /\ c \in DOMAIN FaceOf -> <<"end", <<"face", FaceOf[c]>>>>
            [] kind = "axis" /\ c \in DOMAIN AxisOf -> <<"end", <<"axis", AxisOf[c]>>>>
            [] kind = "turn" /\ c \in DOMAIN FaceOf -> <<"move", <<"turn", FaceOf[c]>>, <<>>>>
            [] kind \in {"wide", "extended"} /\ c \in DOMAIN FaceOf -> <<"face", FaceOf[c]>>
            [] kind \in {"wide", "extended"} /\ c \in DOMAIN SmallOf -> <<"move", <<"wide", SmallOf[c]>>, <<1>>>>
            [] kind \in {"wide", "extended"} /\ c \in DOMAIN DigitOf -> <<"digit", AtLeast1(DigitOf[c])>>
            [] kind \in {"rotation", "extended"} /\ c \in DOMAIN AxisOf -> <<"move", <<"rot", AxisOf[c]>>, <<>>>>
            [] kind = "extended" /\ c \in DOMAIN SliceOf -> <<"slice", SliceOf[c], FALSE>>
            [] kind = "extended" /\ c \in DOMAIN NarrowOf -> <<"slice", NarrowOf[c], TRUE>>
            [] OTHER -> Dead)
    [] at[1] = "digit" ->
         (CASE c \in DOMAIN FaceOf -> <<"needw", FaceOf[c], at[2]>>
            [] c \in DOMAIN SmallOf -> <<"move", <<"wide", SmallOf[c]>>, <<at[2]>>>>
            [] OTHER -> Dead)
    [] at[1] = "needw" -> IF c = "w" THEN <<"move", <<"wide", at[2]>>, <<at[3]>>>> ELSE Dead
    [] at[1] = "face" ->
         (CASE c = "w" -> <<"move", <<"wide", at[2]>>, <<1>>>>
            [] c \in DOMAIN AmountOf ->
                 <<"end", IF kind = "wide" THEN <<"wide", at[2], AmountOf[c], 0>> ELSE <<"turn", at[2], AmountOf[c]>>>>
            [] OTHER -> Dead)
    [] at[1] = "move" -> IF c \in DOMAIN AmountOf THEN <<"end", at[2] \o <<AmountOf[c]>> \o at[3]>> ELSE Dead
    [] at[1] = "slice" ->
         IF c \in DOMAIN AmountOf THEN <<"end", <<"slice", Abs0(at[2]), Seen(at[2], AmountOf[c]), at[3]>>>> ELSE Dead
    [] OTHER -> Dead

\* what has been read, if the text ends here
ValueAt(kind, at) ==
  CASE at[1] = "begin" /\ kind = "amount" -> <<"amount", 1>>
    [] at[1] = "begin" /\ kind = "depth" -> <<"depth", 0>>
    [] at[1] = "face" -> IF kind = "wide" THEN <<"wide", at[2], 1, 0>> ELSE <<"turn", at[2], 1>>
    [] at[1] = "move" -> at[2] \o <<1>> \o at[3]
    [] at[1] = "slice" -> <<"slice", Abs0(at[2]), Seen(at[2], 1), at[3]>>
    [] at[1] = "end" -> at[2]
    [] OTHER -> NoValue

\* a wide turn deeper than the limit of its type is refused
Allowed(limit, v) == v[1] = "wide" => v[4] <= limit

ReadAll(kind, text) == FoldLeft(LAMBDA at, c : Read(kind, at, c), Begin, text)
Reading(kind, limit, text) ==
  LET v == ValueAt(kind, ReadAll(kind, text)) IN IF v # NoValue /\ Allowed(limit, v) THEN v ELSE NoValue

(* --------------------------- lines of notation -------------------------- *)
\* White_Space of Unicode
White == {" ", "U+0009", "U+000A", "U+000B", "U+000C", "U+000D", "U+0085", "U+00A0", "U+1680", "U+2000", "U+2001",
          "U+2002", "U+2003", "U+2004", "U+2005", "U+2006", "U+2007", "U+2008", "U+2009", "U+200A", "U+2028",
          "U+2029", "U+202F", "U+205F", "U+3000"}

\* the line reader: tokens separated by white space, all of them moves
LineBegin == [ok |-> TRUE, values |-> <<>>, at |-> Begin]
CloseToken(kind, limit, s) ==
  IF s.at = Begin THEN s
  ELSE LET v == ValueAt(kind, s.at)
       IN  IF v # NoValue /\ Allowed(limit, v)
           THEN [s EXCEPT !.values = Append(@, v), !.at = Begin]
           ELSE [s EXCEPT !.ok = FALSE, !.at = Begin]
ReadLine(kind, limit, text) ==
  CloseToken(kind, limit, FoldLeft(LAMBDA s, c :
     IF c \in White THEN CloseToken(kind, limit, s) ELSE [s EXCEPT !.at = Read(kind, s.at, c)], LineBegin, text))

\* moves printed one after another, separated by single spaces
SingleSpaced(text) ==
  /\ \A i \in 1..Len(text) : text[i] \in White => text[i] = " "
  /\ \A i \in 1..Len(text) : text[i] = " " => i > 1 /\ i < Len(text) /\ text[i + 1] # " "
=============================================================================

----------------------------- MODULE MCNotation ------------------------------
(***************************************************************************)
(* Reads every text character by character.  Only texts that can still     *)
(* become valid are kept, so this is the complete language: the automaton  *)
(* accepts exactly the texts of the language, with their meaning.          *)
(***************************************************************************)
EXTENDS Notation, TLC
Alphabet == DOMAIN FaceOf \cup DOMAIN SmallOf \cup DOMAIN AxisOf \cup DOMAIN SliceOf \cup DOMAIN NarrowOf
              \cup DOMAIN DigitOf \cup {"w", "'", "W", "X", " "}
VARIABLES kd, text, at
vars == <<kd, text, at>>
Init == kd \in Kinds /\ text = <<>> /\ at = Begin
Type(c) == LET n == Read(kd, at, c) IN n # Dead /\ at' = n /\ text' = Append(text, c) /\ UNCHANGED kd
Next == \E c \in Alphabet : Type(c)
Spec == Init /\ [][Next]_vars

Lang == [k \in Kinds |-> Language(k)]
Meaning(k, t) == { p[2] : p \in { q \in Lang[k] : q[1] = t } }

Short == Len(text) <= 4
\* the automaton accepts a text iff it is in the language, with that one meaning
Agrees == LET v == ValueAt(kd, at) IN Meaning(kd, text) = IF v = NoValue THEN {} ELSE {v}
\* every kept text is the beginning of a valid one
Useful == \E p \in Lang[kd] : Len(p[1]) >= Len(text) /\ SubSeq(p[1], 1, Len(text)) = text
IsRun == at = ReadAll(kd, text)
TypeOK == at # Dead /\ ValueAt(kd, at) # Dead

(* facts about the language *)
ASSUME \A k \in Kinds : \A p, q \in Lang[k] : p[1] = q[1] => p = q
ASSUME \A k \in Kinds : \A p \in Lang[k] : ValueAt(k, ReadAll(k, p[1])) = p[2]
\* every move of depth up to nine can be written
ASSUME { p[2] : p \in Lang["turn"] } = { <<"turn", f, a>> : f \in (-3..3) \ {0}, a \in 1..3 }
ASSUME { p[2] : p \in Lang["wide"] } = { <<"wide", f, a, d>> : f \in (-3..3) \ {0}, a \in 1..3, d \in 0..9 }
ASSUME { p[2] : p \in Lang["rotation"] } = { <<"rot", x, a>> : x \in 1..3, a \in 1..3 }
ASSUME { p[2] : p \in Lang["extended"] } =
         { p[2] : p \in Lang["turn"] } \cup { p[2] : p \in Lang["rotation"] }
           \cup { v \in { p[2] : p \in Lang["wide"] } : v[4] > 0 }
           \cup { <<"slice", x, a, b>> : x \in 1..3, a \in 1..3, b \in BOOLEAN }
\* M turns as L, E as D, S as F
ASSUME Reading("extended", 9, <<"M">>) = <<"slice", 1, 3, FALSE>>
ASSUME Reading("extended", 9, <<"e", "'">>) = <<"slice", 2, 1, TRUE>>
ASSUME Reading("extended", 9, <<"S">>) = <<"slice", 3, 1, FALSE>>
ASSUME Reading("wide", 2, <<"3", "R", "w">>) = NoValue
ASSUME Reading("wide", 3, <<"3", "R", "w", "2">>) = <<"wide", 1, 2, 3>>
ASSUME Reading("wide", 0, <<"r">>) = NoValue
ASSUME ReadLine("turn", 0, <<" ", "R", "2", " ", " ", "U", " ">>).values = << <<"turn", 1, 2>>, <<"turn", 2, 1>> >>
ASSUME ~ReadLine("turn", 0, <<"R", "w">>).ok /\ ReadLine("turn", 0, <<>>).ok

\* all the words of the language have been read
Reached == TLCGet("stats").distinct >=
             Cardinality(Lang["extended"]) + Cardinality(Lang["wide"]) + Cardinality(Lang["turn"])
=============================================================================

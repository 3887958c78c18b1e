----------------------------- MODULE MCPlayground -----------------------------
(***************************************************************************)
(* All sessions of a few lines from a small vocabulary: the cube shown is  *)
(* the one that the valid lines alone lead to; a line of one move is that  *)
(* move of Held; turning the whole cube over shows nothing new; the inner  *)
(* slice is the two outer layers the other way round, seen from the core.  *)
(***************************************************************************)
EXTENDS Playground
CONSTANT Most
VARIABLES said, \* the moves of all valid lines so far
          far
mvars == <<cube, core, sheet, wrong, said, far>>
Chars(k) == <<
  <<>>, <<" ", "U+3000">>, <<"R">>, <<"U", "'">>, <<"x">>, <<"y", "'">>, <<"r">>, <<"3", "L", "w", "2">>, <<"9", "f">>,
  <<"M">>, <<"E", "'">>, <<"s", "2">>, <<"R", " ", "z", "2", " ", " ", "F", "'">>,
  <<"Q">>, <<"R", "'", "'">>, <<"R", " ", "w">>, <<"R", "U">>, <<"U", "+200B">>, <<"R", " ", "U", " ", "b", "3">> >>[k]
Vocabulary == 1..19
MInit == PInit /\ said = <<>> /\ far = 0
MNext ==
  /\ far < Most /\ far' = far + 1
  /\ \/ \E k \in Vocabulary :
          /\ Line(Chars(k))
          /\ said' = IF Heard(Chars(k)).ok THEN said \o Heard(Chars(k)).values ELSE said
     \/ Garbled /\ UNCHANGED said
MSpec == MInit /\ [][MNext]_mvars

OnlyValid == LET h == DidAll(Hand(Solved, 1), said) IN
  cube = h.cube /\ core = h.core /\ sheet = Sheet(Own(h))
ASSUME \A k \in Vocabulary : Heard(Chars(k)).ok <=> k <= 13
Single == [][Len(said') = Len(said) + 1 => HNext]_mvars
Turning == [][(said' # said /\ \A i \in (Len(said) + 1)..Len(said') : said'[i][1] = "rot") => sheet' = sheet]_mvars
Refused == [][wrong' => UNCHANGED <<cube, core, sheet>>]_mvars
\* M is R L' seen from the core: R' L with the cube turned as well
SliceIs ==
  LET h == Hand(cube, core)
      m == Did(h, <<"slice", 1, 3, FALSE>>)
      s == DidAll(h, << <<"turn", 1, 1>>, <<"turn", -1, 3>>, <<"rot", 1, 3>> >>)
  IN  m.cube = s.cube /\ m.core = s.core
=============================================================================

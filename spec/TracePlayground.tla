---------------------------- MODULE TracePlayground ---------------------------
(***************************************************************************)
(* Recorded sessions of the playground:                                    *)
(*   start sheet             what it prints first                          *)
(*   line text wrong sheet   a line typed, whether an error was printed,   *)
(*                           and the sheet printed, empty if none was      *)
(*   garbled wrong sheet     bytes that are no text                        *)
(*   ahead text              a line typed before the one before it was     *)
(*                           answered: what it did is seen later           *)
(***************************************************************************)
EXTENDS Playground, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
Answer == wrong' = T.wrong /\ (IF T.wrong THEN T.sheet = <<>> ELSE T.sheet = sheet')
TInit == PInit /\ l = 1
TStart == /\ IsEvent("start")
          /\ cube' = Solved /\ core' = 1 /\ sheet' = Sheet(Solved) /\ wrong' = FALSE
          /\ T.sheet = sheet'
TLine == IsEvent("line") /\ Line(T.text) /\ Answer
TGarbled == IsEvent("garbled") /\ Garbled /\ Answer
TAhead == IsEvent("ahead") /\ Line(T.text)
TNext == TStart \/ TLine \/ TAhead \/ TGarbled
TSpec == TInit /\ [][TNext]_<<cube, core, sheet, wrong, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

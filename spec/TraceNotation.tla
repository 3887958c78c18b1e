---------------------------- MODULE TraceNotation ----------------------------
(***************************************************************************)
(* Recorded uses of the implementation's parsers and printers:             *)
(*   read kind limit text ok value     one text parsed                     *)
(*   line kind limit text ok values    a whole alg parsed                  *)
(*   print kind value text             a move printed                      *)
(*   printline kind values text        an alg printed                      *)
(* Texts are lists of characters.                                          *)
(***************************************************************************)
EXTENDS Notation, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
T == Trace[l]
AnyDepth == 1000000
TInit == l = 1
TRead ==
  /\ IsEvent("read")
  /\ LET v == Reading(T.kind, T.limit, T.text)
     IN  IF T.ok THEN v = T.value ELSE v = NoValue
TLine ==
  /\ IsEvent("line")
  /\ LET s == ReadLine(T.kind, T.limit, T.text)
     IN  T.ok = s.ok /\ (T.ok => s.values = T.values)
TPrint ==
  /\ IsEvent("print")
  /\ Reading(T.kind, AnyDepth, T.text) = T.value
TPrintLine ==
  /\ IsEvent("printline")
  /\ SingleSpaced(T.text)
  /\ LET s == ReadLine(T.kind, AnyDepth, T.text) IN s.ok /\ s.values = T.values
TNext == TRead \/ TLine \/ TPrint \/ TPrintLine
TSpec == TInit /\ [][TNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

------------------------------ MODULE TraceHeur ------------------------------
(***************************************************************************)
(* Recorded histories of the implementation's heuristic:                   *)
(*   start                      a new process, no tables in use, no files  *)
(*   place k v                  file k is now version v (0 for none)       *)
(*   get ix some v | fallback ix other v | mus ix v                        *)
(*   load ok | own ix v                                                    *)
(* The tables are made so that entry i of version v is EntryOf.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
EntryOf(k, v, i) ==
  (((i % 9973) * (17 + (10 * v) + (IF k = "edges" THEN 3 ELSE 0)) + (i \div 9973) * 7 + v) % 241) + (IF k = "edges" THEN 2 ELSE 0)
VARIABLES files, shared, own, l
H == INSTANCE Heur WITH Versions <- 1..9, Entry <- EntryOf
tvars == <<files, shared, own, l>>
T == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TInit == l = 1 /\ H!HInit
TStart == IsEvent("start") /\ files' = H!NoTables /\ shared' = H!NoTables /\ own' = H!NoTables
TPlace == IsEvent("place") /\ H!Place(T.k, T.v)
TGet == IsEvent("get") /\ H!Lookup(T.ix, IF T.some THEN T.v ELSE H!NoAnswer)
TFallback == IsEvent("fallback") /\ H!Fallback(T.ix, T.other, T.v)
TMus == IsEvent("mus") /\ H!Mus(T.ix, T.v)
TLoad == IsEvent("load") /\ H!LoadOwn(T.ok)
TOwn == IsEvent("own") /\ H!AskOwn(T.ix, T.v)
TNext == TStart \/ TPlace \/ TGet \/ TFallback \/ TMus \/ TLoad \/ TOwn
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

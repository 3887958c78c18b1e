---------------------------- MODULE TraceBuilder -----------------------------
(***************************************************************************)
(* Tables the implementation built: event table k tab disk; tab is the     *)
(* table for puzzle Family[k] as returned, disk as found in the file.      *)
(***************************************************************************)
EXTENDS Builder, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
TInit == l = 1
TTable ==
  /\ l <= Len(Trace) /\ T.e = "table" /\ l' = l + 1
  /\ Len(T.tab) = Family[T.k].p.n
  /\ Certified(Family[T.k].p, [s \in 0..(Len(T.tab) - 1) |-> T.tab[s + 1]])
  /\ T.disk = T.tab
TNext == TTable
TSpec == TInit /\ [][TNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

------------------------------ MODULE TraceStore ------------------------------
(***************************************************************************)
(* Recorded histories of one table on disk:                                *)
(*   start size built at bytes folder     a new table, and what is there   *)
(*   load | loadorbuild ans tab ...       the answer and what is there now *)
(*   store b ... | storefull room b ...   (bytes of what was stored)       *)
(*   outside ...                          someone else changed something   *)
(* Every event says what is there afterwards: at, bytes, folder; touched:  *)
(* whether the file was written to.                                        *)
(***************************************************************************)
EXTENDS Store, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, size, built, place, folder
tvars == <<l, size, built, place, folder>>
T == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
PlaceOf(t) == IF t.at = "file" THEN FileOf(t.bytes) ELSE [at |-> t.at]
AnsOf(t) == IF t.ans = "table" THEN TableOf(t.tab) ELSE <<t.ans>>
Now == place' = PlaceOf(T) /\ folder' = T.folder
TInit == l = 1 /\ size = 0 /\ built = <<>> /\ place = Nothing /\ folder = "none"
TStart == IsEvent("start") /\ size' = T.size /\ built' = T.built /\ Now
TOutside == IsEvent("outside") /\ Now /\ UNCHANGED <<size, built>>
TLoad == IsEvent("load") /\ Now /\ UNCHANGED <<size, built>> /\ ~T.touched
         /\ LoadRel(size, place, folder, AnsOf(T), place', folder')
TLoadOrBuild == IsEvent("loadorbuild") /\ Now /\ UNCHANGED <<size, built>>
         /\ (place.at # "none" => ~T.touched)
         /\ LoadOrBuildRel(size, built, place, folder, AnsOf(T), place', folder')
TStore == IsEvent("store") /\ Now /\ UNCHANGED <<size, built>>
         /\ StoreRel(size, T.b, place, folder, AnsOf(T), place', folder')
TStoreFull == IsEvent("storefull") /\ Now /\ UNCHANGED <<size, built>>
         /\ StoreFullRel(size, T.room, T.b, place, folder, AnsOf(T), place', folder')
TNext == TStart \/ TOutside \/ TLoad \/ TLoadOrBuild \/ TStore \/ TStoreFull
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

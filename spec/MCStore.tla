------------------------------- MODULE MCStore -------------------------------
(***************************************************************************)
(* All histories of loading, building, storing, crashes in the middle of   *)
(* storing, and edits from outside, for small tables.                      *)
(***************************************************************************)
EXTENDS Store
CONSTANTS Size, Bytes, MaxLen
VARIABLES place, folder, answer, before
vars == <<place, folder, answer, before>>
Strings == UNION { [1..n -> Bytes] : n \in 0..MaxLen }
Whole == { b \in Strings : Len(b) = Size }
Built == [i \in 1..Size |-> 0]
Places == {Nothing, [at |-> "dir"], [at |-> "loop"]} \cup { FileOf(b) : b \in Strings }
Folders == {"ok", "none", "file"}
Answers == {Fails, Done} \cup { TableOf(b) : b \in Strings }
Init == place \in Places /\ folder \in Folders /\ Consistent(place, folder) /\ answer = Done
        /\ before = <<"start", place, folder>>
Op(name) == before' = <<name, place, folder>>
Load == \E a \in Answers : LoadRel(Size, place, folder, a, place', folder') /\ answer' = a
LoadOrBuild == \E a \in Answers, pl2 \in {place, FileOf(Built)}, fo2 \in {folder, "ok"} :
  LoadOrBuildRel(Size, Built, place, folder, a, pl2, fo2) /\ place' = pl2 /\ folder' = fo2 /\ answer' = a
Storing(b) == \E a \in {Fails, Done}, pl2 \in {place, FileOf(b)}, fo2 \in {folder, "ok"} :
  StoreRel(Size, b, place, folder, a, pl2, fo2) /\ place' = pl2 /\ folder' = fo2 /\ answer' = a
\* storing, or building and storing, cut short by a crash
Crash(b) == \E n \in 0..(Size - 1) :
  /\ folder # "file" /\ place.at \in {"none", "file"}
  /\ place' = FileOf(SubSeq(b, 1, n)) /\ folder' = "ok" /\ answer' = Fails
Outside == \E pl2 \in Places, fo2 \in Folders : Consistent(pl2, fo2) /\ place' = pl2 /\ folder' = fo2 /\ answer' = Done
Next == \/ Load /\ Op("load")
        \/ LoadOrBuild /\ Op("loadorbuild")
        \/ \E b \in Strings : Storing(b) /\ Op("store")
        \/ \E b \in Whole : Crash(b) /\ Op("crash")
        \/ Outside /\ Op("outside")
Spec == Init /\ [][Next]_vars

Sane == Consistent(place, folder)
\* what a run gets is never of the wrong length, and is what is on disk
NeverWrong == answer[1] = "table" => Len(answer[2]) = Size /\ place = FileOf(answer[2])
\* a beginning left by a crash is never taken for a table, nor overwritten unasked
CrashSeen == (before[1] \in {"load", "loadorbuild"} /\ before[2].at = "file" /\ Len(before[2].bytes) # Size)
               => answer = Fails /\ place = before[2]
\* intact files are used as they are
Untouched == (before[1] \in {"load", "loadorbuild"} /\ IsIntact(before[2], Size))
               => answer = TableOf(before[2].bytes) /\ place = before[2]
\* a missing table is made, with its directory
Made == (before[1] = "loadorbuild" /\ before[2].at = "none" /\ before[3] # "file")
               => answer = TableOf(Built) /\ place = FileOf(Built) /\ folder = "ok"
\* what is stored reads back
ReadsBack == (before[1] = "store" /\ answer = Done) => IsIntact(place, Size)
RefusedKept == (before[1] = "store" /\ answer = Fails) => place = before[2]
=============================================================================

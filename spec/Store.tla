-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* One table on disk.                                                      *)
(*                                                                         *)
(* place    what is at the table's path: [at |-> "none"], [at |-> "dir"],  *)
(*          [at |-> "loop"] (a link to itself, which nothing can read) or  *)
(*          [at |-> "file", bytes |-> ...]                                 *)
(* folder   the directory it belongs in: "ok", "none", or "file" (a plain  *)
(*          file stands in its way)                                        *)
(* answer   of the last operation: <<"table", bytes>>, <<"fails">>         *)
(*          (refused, loudly), or <<"done">>                               *)
(*                                                                         *)
(* Built is the table that building yields, Size its length.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

Nothing == [at |-> "none"]
FileOf(b) == [at |-> "file", bytes |-> b]
IsIntact(pl, size) == pl.at = "file" /\ Len(pl.bytes) = size
Fails == <<"fails">>
Done == <<"done">>
TableOf(b) == <<"table", b>>

\* consistent pairs: nothing is inside a folder that does not exist
Consistent(pl, fo) == fo # "ok" => pl.at = "none"

(* Each operation as a relation between before, answer and after.          *)
LoadRel(size, pl, fo, ans, pl2, fo2) ==
  /\ pl2 = pl /\ fo2 = fo
  /\ ans = IF IsIntact(pl, size) THEN TableOf(pl.bytes) ELSE Fails
\* plainly missing, not merely unreadable
IsMissing(pl, fo) == pl.at = "none" /\ fo # "file"
LoadOrBuildRel(size, built, pl, fo, ans, pl2, fo2) ==
  IF IsIntact(pl, size) THEN ans = TableOf(pl.bytes) /\ pl2 = pl /\ fo2 = fo
  ELSE IF IsMissing(pl, fo) THEN ans = TableOf(built) /\ pl2 = FileOf(built) /\ fo2 = "ok"
  ELSE ans = Fails /\ pl2 = pl /\ fo2 = fo
\* storing: only whole tables
StoreRel(size, b, pl, fo, ans, pl2, fo2) ==
  IF Len(b) = size /\ fo # "file" /\ pl.at \in {"none", "file"}
  THEN ans = Done /\ pl2 = FileOf(b) /\ fo2 = "ok"
  ELSE ans = Fails /\ pl2 = pl /\ fo2 = fo
\* storing with a disk that takes only the first room bytes: loud, and what
\* is left is a beginning of it, or what was there, or nothing; never what
\* could be taken for a table
StoreFullRel(size, room, b, pl, fo, ans, pl2, fo2) ==
  /\ Len(b) = size /\ room < size /\ fo # "file" /\ pl.at \in {"none", "file"}
  /\ ans = Fails
  /\ \/ pl2.at = "file" /\ Len(pl2.bytes) <= room /\ pl2.bytes = SubSeq(b, 1, Len(pl2.bytes)) /\ fo2 = "ok"
     \/ pl2 = pl /\ fo2 \in {fo, "ok"}
     \/ pl2 = Nothing /\ fo2 = "ok"
=============================================================================

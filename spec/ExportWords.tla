----------------------------- MODULE ExportWords -----------------------------
(* Combined moves as a table: what becomes of each when it takes each turn.  *)
EXTENDS Words, TLC, Json
CONSTANT OutFile
TurnSeq == SetToSeq(AllTurns)
CombSeq == <<NoMove>> \o SetToSeq(Combined)
Ix(c) == CHOOSE i \in DOMAIN CombSeq : CombSeq[i] = c
ASSUME JsonSerialize(OutFile,
  [ turns |-> TurnSeq,
    combined |-> CombSeq,
    parts |-> [i \in DOMAIN CombSeq |-> Parts(CombSeq[i])],
    take |-> [i \in DOMAIN CombSeq |-> [j \in DOMAIN TurnSeq |-> Ix(Take(CombSeq[i], TurnSeq[j]))]],
    how |-> [i \in DOMAIN CombSeq |-> [j \in DOMAIN TurnSeq |-> How(CombSeq[i], TurnSeq[j])]] ])
VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE
=============================================================================

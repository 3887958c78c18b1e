------------------------------- MODULE MCAnswers ------------------------------
(***************************************************************************)
(* A library that answers questions of two parts, of several makes.  Some  *)
(* keep nothing, or what they keep cannot be noticed; others mix up what   *)
(* they keep for threads, remember by a part of the question, wear out,    *)
(* are spoiled by a refusal, or are used before they are ready.            *)
(*                                                                         *)
(* It is asked by a plan: everything in order, everything backwards; in a  *)
(* new process everything backwards; in another all threads everything, in *)
(* any order and interleaving.  Then: the honest makes are Consistent; the *)
(* others, except where it takes a race, never are after the plan; and for *)
(* those that take a race some interleaving of the plan shows it.  So the  *)
(* plan tells honest makes from others, and needs each of its parts.       *)
(***************************************************************************)
EXTENDS Answers, TLC
CONSTANTS Threads, Makes,
  Most      \* of how many questions all threads ask together
Questions == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>}
Order == << <<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>> >>
Back == << <<1, 1>>, <<1, 0>>, <<0, 1>>, <<0, 0>> >>
Honest == {"none", "own", "whole"}
Racy == {"shared", "first"}
Wrong == <<9, 9>>
\* the answer: what was asked; <<1, 1>> is refused, which is an answer
None == <<>>
Last == <<2>>

VARIABLES
  make,     \* of which make the library is
  part,     \* part of the plan
  todo,     \* what is to be asked alone, in order
  left,     \* what each thread is to ask, together
  asking,   \* what each thread has asked
  seen,     \* what a thread saw when it asked
  slot,     \* what is kept for each thread; of 0, for all
  kept,     \* answers remembered by key
  worn, ready,
  record
vars == <<make, part, todo, left, asking, seen, slot, kept, worn, ready, record>>

Keys == Questions \cup {<<0>>, <<1>>, Last}
Blank == [k \in Keys |-> None]
Init ==
  /\ make \in Makes /\ part = 1 /\ todo = Order
  /\ left = [t \in Threads |-> {}] /\ asking = [t \in Threads |-> None]
  /\ seen = [t \in Threads |-> FALSE]
  /\ slot = [t \in Threads \cup {0} |-> None] /\ kept = Blank
  /\ worn = 0 /\ ready = "no" /\ record = {}

Ask(t, q) ==
  /\ asking[t] = None /\ asking' = [asking EXCEPT ![t] = q]
  /\ slot' = CASE make = "own" -> [slot EXCEPT ![t] = q]
               [] make = "shared" -> [slot EXCEPT ![0] = q]
               [] OTHER -> slot
  \* whoever comes first makes it ready
  /\ seen' = [seen EXCEPT ![t] = (ready = "no")]
  /\ ready' = IF ready = "no" THEN "making" ELSE ready

Key(q) == IF make = "whole" THEN q ELSE <<q[1]>>
AnswerTo(t) ==
  LET q == asking[t] IN
  CASE make = "none" -> q
    [] make = "own" -> slot[t]
    [] make = "shared" -> slot[0]
    [] make \in {"whole", "part"} -> IF kept[Key(q)] = None THEN q ELSE kept[Key(q)]
    [] make = "last" -> IF kept[Last] # None /\ kept[Last][1] = q[1] THEN kept[Last] ELSE q
    [] make = "worn" -> IF worn >= 6 THEN Wrong ELSE q
    [] make = "spoiled" -> IF kept[Last] = <<1, 1>> THEN Wrong ELSE q
    [] make = "first" -> IF seen[t] \/ ready = "yes" THEN q ELSE Wrong
Tell(t) ==
  LET q == asking[t] a == AnswerTo(t) IN
  /\ q # None
  /\ asking' = [asking EXCEPT ![t] = None]
  /\ record' = record \cup {<<q, a>>}
  /\ kept' = CASE make \in {"whole", "part"} -> [kept EXCEPT ![Key(q)] = a]
               [] make = "last" -> [kept EXCEPT ![Last] = a]
               [] make = "spoiled" -> [kept EXCEPT ![Last] = q]
               [] OTHER -> kept
  /\ worn' = IF make = "worn" THEN worn + 1 ELSE worn
  /\ ready' = IF seen[t] THEN "yes" ELSE ready

One == CHOOSE t \in Threads : TRUE
Alone ==
  /\ part <= 3 /\ todo # <<>>
  /\ \/ Ask(One, Head(todo)) /\ UNCHANGED <<make, part, todo, left, kept, worn, record>>
     \/ Tell(One) /\ todo' = Tail(todo) /\ UNCHANGED <<make, part, left, seen, slot>>
Together ==
  /\ part = 4
  /\ \E t \in Threads :
       \/ \E q \in left[t] : Ask(t, q) /\ left' = [left EXCEPT ![t] = @ \ {q}]
                             /\ UNCHANGED <<make, part, todo, kept, worn, record>>
       \/ Tell(t) /\ UNCHANGED <<make, part, todo, left, seen, slot>>
Rest ==
  /\ part <= 3 /\ todo = <<>>
  /\ part' = part + 1
  /\ todo' = IF part <= 2 THEN Back ELSE <<>>
  /\ left' = IF part = 3 THEN [t \in Threads |-> { Order[i] : i \in 1..Most }] ELSE left
  \* a new process
  /\ IF part >= 2
       THEN /\ kept' = Blank /\ worn' = 0 /\ ready' = "no" /\ slot' = [t \in Threads \cup {0} |-> None]
            /\ seen' = [t \in Threads |-> FALSE]
       ELSE UNCHANGED <<kept, worn, ready, slot, seen>>
  /\ UNCHANGED <<make, asking, record>>
Next == Alone \/ Together \/ Rest
Spec == Init /\ [][Next]_vars

Done == part = 4 /\ \A t \in Threads : left[t] = {} /\ asking[t] = None
Trusted == make \in Honest => Consistent(record)
Found == Done /\ make \notin Honest \cup Racy => ~Consistent(record)
\* the racy ones: noted when they are found
ASSUME TLCSet(36, {})
Noted == IF make \in Racy /\ ~Consistent(record) THEN TLCSet(36, TLCGet(36) \cup {make}) ELSE TRUE
AllFound == TLCGet(36) = Makes \cap Racy
=============================================================================

-------------------------------- MODULE Lazy --------------------------------
(***************************************************************************)
(* A lazily computed value (util/lazy.rs) and every way of using it: it is *)
(* made from a computation or from a value, its handles are cloned and     *)
(* dropped, looked through, and looks are kept while others are taken.     *)
(*                                                                         *)
(* seen is what a user has observed, action by action: <<action, handle,   *)
(* number of times the computation has run by now, value or -1>>.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Handles, MaxLooks, Depth
VARIABLES made,        \* "no" | "lazy" | "value" | "fails"
          live,        \* handles that exist
          forced,      \* the value is there
          looks,       \* looks kept, oldest first: the handle of each
          calls,       \* times the computation has run
          seen
vars == <<made, live, forced, looks, calls, seen>>

GIVEN == 100           \* the value a cell is made from
FIRST == 1             \* the computation gives the number of its run

Init == made = "no" /\ live = {} /\ forced = FALSE /\ looks = << >> /\ calls = 0 /\ seen = << >>

Note(a, h, c, v) == seen' = Append(seen, <<a, h, c, v>>)
Short == Len(seen) < Depth
Next0 == CHOOSE h \in Handles \ live : \A k \in Handles \ live : h <= k
Make(how) ==
  /\ Short /\ made = "no"
  /\ made' = how /\ live' = {1} /\ forced' = (how = "value")
  /\ Note(how, 1, 0, -1)
  /\ UNCHANGED <<looks, calls>>
Clone(h) ==
  /\ Short /\ h \in live /\ live # Handles
  /\ live' = live \cup {Next0}
  /\ Note("clone", h, calls, -1)
  /\ UNCHANGED <<made, forced, looks, calls>>
(* a handle outlives the looks through it *)
Drop(h) ==
  /\ Short /\ h \in live /\ \A i \in 1..Len(looks) : looks[i] # h
  /\ live' = live \ {h}
  /\ Note("drop", h, calls, -1)
  /\ UNCHANGED <<made, forced, looks, calls>>
Value == IF made = "value" THEN GIVEN ELSE FIRST
CallsAfter == IF made = "value" THEN 0 ELSE IF made = "fails" THEN calls ELSE 1
(* look and keep looking *)
Look(h) ==
  /\ Short /\ h \in live /\ Len(looks) < MaxLooks /\ made # "fails"
  /\ forced' = TRUE /\ calls' = CallsAfter
  /\ looks' = Append(looks, h)
  /\ Note("look", h, CallsAfter, Value)
  /\ UNCHANGED <<made, live>>
Glance(h) ==
  /\ Short /\ h \in live /\ made # "fails"
  /\ forced' = TRUE /\ calls' = CallsAfter
  /\ Note("glance", h, CallsAfter, Value)
  /\ UNCHANGED <<made, live, looks>>
(* a computation that fails never gives a value *)
Fail(h) ==
  /\ Short /\ h \in live /\ made = "fails"
  /\ calls' = 1
  /\ Note("glance", h, 1, -1)
  /\ UNCHANGED <<made, live, looks, forced>>
Away ==
  /\ Short /\ looks # << >>
  /\ looks' = Tail(looks)
  /\ Note("away", Head(looks), calls, -1)
  /\ UNCHANGED <<made, live, forced, calls>>
Next == \/ \E how \in {"lazy", "value", "fails"} : Make(how)
        \/ \E h \in Handles : Clone(h) \/ Drop(h) \/ Look(h) \/ Glance(h) \/ Fail(h)
        \/ Away
Spec == Init /\ [][Next]_vars

(* what a user relies on, over whole histories *)
Looked(i) == seen[i][1] \in {"look", "glance"}
AtMostOnce == calls <= 1 /\ \A i \in 1..Len(seen) : seen[i][3] <= 1
NotBefore == \A i \in 1..Len(seen) : (\A j \in 1..i : ~Looked(j)) => seen[i][3] = 0
SameForAll == \A i, j \in 1..Len(seen) : Looked(i) /\ Looked(j) => seen[i][4] = seen[j][4]
GivenNeverRuns == made = "value" => calls = 0
TypeOK == live \subseteq Handles /\ Len(looks) <= MaxLooks /\ (calls > 0 => made \in {"lazy", "fails"})
=============================================================================

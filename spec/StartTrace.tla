----------------------------- MODULE StartTrace -----------------------------
(***************************************************************************)
(* Trace validation of what folding is set up with.                        *)
(*  k = "z"  the published initial state over a field                      *)
(*  k = "b"  a list of headers was turned into step circuits, and each of  *)
(*           them was run on a state that its header extends               *)
(***************************************************************************)
EXTENDS HeaderStart, TLCExt, Json, IOUtils, Sequences

Raw == ndJsonDeserialize(IOEnv.TRACE)
Fields == Raw[1].fields
Heads == TLCEval([i \in 1..Len(Raw[1].headers) |-> ParseHeader(Raw[1].headers[i])])
First == Heads[Raw[1].first]
N == Len(Raw) - 1
Ev(j) == Raw[j + 1]

VARIABLES i, count, failed
vars == <<i, count, failed>>
Classes == {"Published", "Listed"}
Init == i = 1 /\ count = [c \in Classes |-> 0] /\ failed = {}
Consume(c, bad) == /\ count' = [count EXCEPT ![c] = @ + 1]
                   /\ (i = N => PrintT(<<"LANE", [count EXCEPT ![c] = @ + 1]>>))
                   /\ failed' = bad
                   /\ (bad # {} => PrintT(<<"BAD", i, bad>>))
                   /\ i' = i + 1
Published == /\ i <= N /\ Ev(i).k = "z"
             /\ Consume("Published", StartClauses(Ev(i).z, First))
(* one circuit for every header, in the order of the list, and the one that hashes that header *)
Listed ==
  /\ i <= N /\ Ev(i).k = "b"
  /\ LET e == Ev(i)
         ok(j) == e.got[j].v # "acc" \/ (e.got[j].tip = Heads[e.list[j]].hash /\ e.got[j].time = Heads[e.list[j]].time)
     IN Consume("Listed", (IF e.n = Len(e.list) THEN {} ELSE {"ListLength"})
                          \cup (IF \A j \in 1..MinI(Len(e.got), Len(e.list)) : ok(j) THEN {} ELSE {"ListOrder"}))
Next == Published \/ Listed
Spec == Init /\ [][Next]_vars
Conforms == failed = {}
AllConsumed == TLCGet("distinct") = N + 1
=============================================================================

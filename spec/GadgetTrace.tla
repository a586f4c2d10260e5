---------------------------- MODULE GadgetTrace -----------------------------
(***************************************************************************)
(* Trace validation: every recorded call of a gadget of the real code must *)
(* be a step that GadgetSpec allows.  One event is consumed per step; the  *)
(* trace is cut into lanes that are validated independently.               *)
(*                                                                         *)
(* Events (first line of the file: the table of fields):                   *)
(*  k = "h"  an honest call: the code computed the witness.  v is acc /    *)
(*           unsat (some constraint fails) / err / panic                   *)
(*  k = "f"  a forged call: an adversary chose the witness and every       *)
(*           constraint of the circuit is satisfied                        *)
(*  k = "s"  fingerprints of the circuit built with and without a witness  *)
(***************************************************************************)
EXTENDS GadgetSpec, TLC, TLCExt, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.TRACE)
Fields == Raw[1].fields
N == Len(Raw) - 1
Ev(j) == Raw[j + 1]
LANES == 64

Full(e) == [k |-> e.k, op |-> e.op, par |-> e.par, cst |-> e.cst, in |-> e.in, out |-> e.out,
            dec |-> e.dec, bn |-> e.bn, res |-> e.res, neg |-> e.neg,
            p |-> Fields[e.f].p, cap |-> Fields[e.f].cap, nb |-> Fields[e.f].nb]

VARIABLES lane, i, class, verdict
vars == <<lane, i, class, verdict>>

Init == /\ lane \in 1..MinI(LANES, N)
        /\ i = lane
        /\ class = "start"
        /\ verdict = "ok"

IsEvent(k) == i <= N /\ Ev(i).k = k
Consume(c, v) == /\ class' = c
                 /\ verdict' = v
                 /\ (v # "ok" => PrintT(<<"BAD", v, i, Ev(i).op, Fields[Ev(i).f].id, Ev(i).par>>))
                 /\ i' = i + MinI(LANES, N)
                 /\ UNCHANGED lane

(* an honest call inside the domain, accepted *)
HonestAccepted ==
  /\ IsEvent("h") /\ Ev(i).v = "acc"
  /\ LET e == Full(Ev(i))
     IN /\ Pre(e)
        /\ Consume("HonestAccepted",
                   IF ~Legal(e) THEN "Legal" ELSE IF ~Coherent(e) THEN "Coherent"
                   ELSE IF ~DeclOk(e) THEN "DeclOk" ELSE "ok")
(* an honest call inside the domain, refused: allowed only if it need not be accepted *)
HonestRefused ==
  /\ IsEvent("h") /\ Ev(i).v # "acc"
  /\ LET e == Full(Ev(i))
     IN /\ Pre(e)
        /\ Consume("HonestRefused", IF MustAccept(e) THEN "MustAccept" ELSE "ok")
(* the adversary got the circuit accepted *)
Forged ==
  /\ IsEvent("f")
  /\ LET e == Full(Ev(i))
     IN /\ Pre(e)
        /\ Consume("Forged", IF Legal(e) THEN "ok" ELSE "Sound")
OutsideDomain ==
  /\ i <= N /\ Ev(i).k \in {"h", "f"} /\ ~Pre(Full(Ev(i)))
  /\ Consume("OutsideDomain", "ok")
(* the circuit does not depend on the witness *)
SameShape ==
  /\ IsEvent("s")
  /\ LET e == Ev(i)
         s == [k |-> "s", op |-> e.op, par |-> e.par, cst |-> e.cst, in |-> e.in, out |-> << >>,
               dec |-> << >>, bn |-> << >>, res |-> << >>, neg |-> FALSE,
               p |-> Fields[e.f].p, cap |-> Fields[e.f].cap, nb |-> Fields[e.f].nb]
     IN Consume("SameShape",
                IF e.setup # e.prove /\ Pre(s) /\ MustAccept(s) THEN "Shape" ELSE "ok")

Done == i > N /\ UNCHANGED vars

Next == HonestAccepted \/ HonestRefused \/ Forged \/ OutsideDomain \/ SameShape
Spec == Init /\ [][Next]_vars

Conforms == verdict = "ok"
(* every event was consumed *)
AllConsumed == TLCGet("distinct") = N + MinI(LANES, N)
=============================================================================

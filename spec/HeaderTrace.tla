---------------------------- MODULE HeaderTrace -----------------------------
(***************************************************************************)
(* Trace validation of the folding step: every recorded run of the real    *)
(* step circuit must be a step the rules allow.                            *)
(*                                                                         *)
(* Events (first line of the file: the fields and the header bytes):       *)
(*  k = "h"  the honest prover; v is acc / unsat / err / panic             *)
(*  k = "f"  an adversary chose the witness, every constraint holds        *)
(*  k = "s"  fingerprints of the circuit with and without a witness        *)
(* A step fails by clauses; SCOPE says whose clauses this run decides.     *)
(***************************************************************************)
EXTENDS HeaderReal, TLCExt, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.TRACE)
Fields == Raw[1].fields
Heads == TLCEval([i \in 1..Len(Raw[1].headers) |-> ParseHeader(Raw[1].headers[i])])
N == Len(Raw) - 1
Ev(j) == Raw[j + 1]
LANES == 64

Scope ==
  CASE IOEnv.SCOPE = "C01" -> {"Prev", "OutTip"}
    [] IOEnv.SCOPE = "C02" -> {"Bits", "Pow"}
    [] IOEnv.SCOPE = "C03" -> {"Time", "OutWindow"}
    [] IOEnv.SCOPE = "C04" -> {"Sched", "Cap", "OutTarget"}
    [] IOEnv.SCOPE = "C05" -> {"OutCtr", "OutStart"}
    [] IOEnv.SCOPE = "C06" -> {"OutWork"}
    [] IOEnv.SCOPE = "C07" -> {"MustAccept", "Declared"}
    [] IOEnv.SCOPE = "C08" -> {"Shape", "Arity"}
    [] OTHER -> {"Forged"}

(* the step is about well-formed states, and sums that the field can hold *)
Room(e, st, h) == Lt(Add(st.work, Pow2(225)), Fields[e.f].p)
Pre(e) == LET st == FromZ(e.z) IN WellFormed(st) /\ Room(e, st, Heads[e.h])

(* what the rules say about a step that was accepted with the outputs zo *)
Broken(st, h, zo) ==
  (IF PrevOk(st, h) THEN {} ELSE {"Prev"})
  \cup (IF BitsOk(h) THEN {} ELSE {"Bits"})
  \cup (IF ~BitsOk(h) \/ PowOk(h) THEN {} ELSE {"Pow"})
  \cup (IF TimeOk(st, h) THEN {} ELSE {"Time"})
  \cup (IF ~BitsOk(h) \/ SchedOk(st, h) THEN {} ELSE {"Sched"})
  \cup (IF ~BitsOk(h) \/ CapOk(h) THEN {} ELSE {"Cap"})
  \cup (LET x == FromZ(zo)
            a == Apply(st, h)
        IN (IF x.tip = a.tip THEN {} ELSE {"OutTip"})
           \cup (IF x.win = a.win THEN {} ELSE {"OutWindow"})
           \cup (IF ~BitsOk(h) \/ x.target = a.target THEN {} ELSE {"OutTarget"})
           \cup (IF x.start = a.start THEN {} ELSE {"OutStart"})
           \cup (IF x.ctr = a.ctr THEN {} ELSE {"OutCtr"})
           \cup (IF ~BitsOk(h) \/ Target(h) = Zero \/ x.work = a.work THEN {} ELSE {"OutWork"}))

(* steps the honest prover must get accepted *)
Must(e, st, h) == /\ Valid(st, h) /\ Canonical(h) /\ Target(h) # Zero
                  /\ Lt(h.prev, Pow2(Fields[e.f].cap)) /\ Lt(h.hash, Pow2(Fields[e.f].cap))

VARIABLES lane, i, count, failed
vars == <<lane, i, count, failed>>

Classes == {"HonestAccepted", "HonestRefused", "HonestRefusedValid", "Forged", "OutsideDomain", "SameShape"}

Init == /\ lane \in 1..MinI(LANES, N)
        /\ i = lane
        /\ count = [c \in Classes |-> 0]
        /\ failed = {}

IsEvent(k) == i <= N /\ Ev(i).k = k
Consume(c, bad) == /\ count' = [count EXCEPT ![c] = @ + 1]
                   /\ (i + MinI(LANES, N) > N => PrintT(<<"LANE", [count EXCEPT ![c] = @ + 1]>>))
                   /\ failed' = bad \cap Scope
                   /\ (bad \cap Scope # {} => PrintT(<<"BAD", i, bad \cap Scope>>))
                   /\ i' = i + MinI(LANES, N)
                   /\ UNCHANGED lane

HonestAccepted ==
  /\ IsEvent("h") /\ Ev(i).v = "acc" /\ Pre(Ev(i))
  /\ Consume("HonestAccepted",
             Broken(FromZ(Ev(i).z), Heads[Ev(i).h], Ev(i).zo)
             \cup (IF Ev(i).dec = Ev(i).zo THEN {} ELSE {"Declared"}))
(* refused although valid *)
HonestRefusedValid ==
  /\ IsEvent("h") /\ Ev(i).v # "acc" /\ Pre(Ev(i))
  /\ Must(Ev(i), FromZ(Ev(i).z), Heads[Ev(i).h])
  /\ Consume("HonestRefusedValid", {"MustAccept"})
HonestRefused ==
  /\ IsEvent("h") /\ Ev(i).v # "acc" /\ Pre(Ev(i))
  /\ ~Must(Ev(i), FromZ(Ev(i).z), Heads[Ev(i).h])
  /\ Consume("HonestRefused", {})
Forged ==
  /\ IsEvent("f") /\ Pre(Ev(i))
  /\ LET b == Broken(FromZ(Ev(i).z), Heads[Ev(i).h], Ev(i).zo)
     IN Consume("Forged", b \cup (IF b = {} THEN {} ELSE {"Forged"}))
OutsideDomain ==
  /\ i <= N /\ Ev(i).k \in {"h", "f"} /\ ~Pre(Ev(i))
  /\ Consume("OutsideDomain", {})
SameShape ==
  /\ IsEvent("s")
  /\ LET e == Ev(i)
         must == Pre(e) /\ Must(e, FromZ(e.z), Heads[e.h])
     IN Consume("SameShape", (IF must /\ e.setup # e.prove THEN {"Shape"} ELSE {})
                             \cup (IF e.arity = 16 /\ e.outs = 16 THEN {} ELSE {"Arity"}))

Next == HonestAccepted \/ HonestRefused \/ HonestRefusedValid \/ Forged \/ OutsideDomain \/ SameShape
Spec == Init /\ [][Next]_vars
Conforms == failed = {}
AllConsumed == TLCGet("distinct") = N + MinI(LANES, N)
=============================================================================

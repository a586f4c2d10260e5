----------------------------- MODULE HeaderRun ------------------------------
(***************************************************************************)
(* Chains driven through the real circuit, outputs fed back as inputs, are *)
(* behaviours of HeaderChain: every accepted step is Append1 of the real   *)
(* header, the state it gives is the recorded output, and the history      *)
(* invariants of HeaderChain hold along the way.                           *)
(***************************************************************************)
EXTENDS HeaderChain, HeaderReal, TLCExt, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.TRACE)
Fields == Raw[1].fields
Heads == TLCEval([j \in 1..Len(Raw[1].headers) |-> ParseHeader(Raw[1].headers[j])])
M == Len(Raw) - 1
Ev(j) == Raw[j + 1]
Chains == {j \in 1..M : Ev(j).k = "c" /\ Ev(j).idx = 1}

VARIABLES at,          \* event to be explained next
          run,         \* chain
          diff         \* what is wrong with it
rvars == <<st, hist, init, at, run, diff>>

RInit == /\ run \in Chains
         /\ at = run
         /\ st = FromZ(Ev(run).z)
         /\ init = st
         /\ hist = << >>
         /\ diff = {}
Here == at <= M /\ Ev(at).k = "c" /\ Ev(at).case = Ev(run).case /\ diff = {}
Fail(d) == /\ diff' = d
           /\ PrintT(<<"BADCHAIN", at, d>>)
           /\ at' = at + 1
           /\ UNCHANGED <<st, hist, init, run>>
Compare(x, a) == (IF x.tip = a.tip THEN {} ELSE {"OutTip"}) \cup (IF x.win = a.win THEN {} ELSE {"OutWindow"})
                 \cup (IF x.target = a.target THEN {} ELSE {"OutTarget"}) \cup (IF x.start = a.start THEN {} ELSE {"OutStart"})
                 \cup (IF x.ctr = a.ctr THEN {} ELSE {"OutCtr"}) \cup (IF x.work = a.work THEN {} ELSE {"OutWork"})
RAppend ==
  /\ Here /\ Ev(at).v = "acc" /\ FromZ(Ev(at).z) = st
  /\ Valid(st, Heads[Ev(at).h])
  /\ Compare(FromZ(Ev(at).zo), Apply(st, Heads[Ev(at).h])) = {}
  /\ Append1(Heads[Ev(at).h])
  /\ at' = at + 1
  /\ UNCHANGED <<run, diff>>
RWrong ==       \* accepted, but not what the rules give
  /\ Here /\ Ev(at).v = "acc"
  /\ LET h == Heads[Ev(at).h]
         d == (IF FromZ(Ev(at).z) = st THEN {} ELSE {"Carried"})
              \cup (IF PrevOk(st, h) THEN {} ELSE {"Prev"}) \cup (IF BitsOk(h) THEN {} ELSE {"Bits"}) \cup (IF PowOk(h) THEN {} ELSE {"Pow"})
              \cup (IF TimeOk(st, h) THEN {} ELSE {"Time"}) \cup (IF SchedOk(st, h) THEN {} ELSE {"Sched"}) \cup (IF CapOk(h) THEN {} ELSE {"Cap"})
              \cup Compare(FromZ(Ev(at).zo), Apply(st, h))
     IN d # {} /\ Fail(d)
RRefused ==     \* a chain may stop where the rules stop it
  /\ Here /\ Ev(at).v # "acc"
  /\ LET h == Heads[Ev(at).h]
     IN IF Valid(st, h) /\ Canonical(h)
        THEN Fail({"MustAccept"})
        ELSE at' = M + 1 /\ UNCHANGED <<st, hist, init, run, diff>>
RNext == RAppend \/ RWrong \/ RRefused
RSpec == RInit /\ [][RNext]_rvars

ScopeC ==
  CASE IOEnv.SCOPE = "C01" -> {"Prev", "OutTip"}
    [] IOEnv.SCOPE = "C02" -> {"Bits", "Pow"}
    [] IOEnv.SCOPE = "C03" -> {"Time", "OutWindow"}
    [] IOEnv.SCOPE = "C04" -> {"Sched", "Cap", "OutTarget"}
    [] IOEnv.SCOPE = "C05" -> {"OutCtr", "OutStart"}
    [] IOEnv.SCOPE = "C06" -> {"OutWork"}
    [] IOEnv.SCOPE = "C07" -> {"MustAccept"}
    [] OTHER -> {}
Follows == diff \cap ScopeC = {}
=============================================================================

----------------------------- MODULE HeaderNova -----------------------------
(***************************************************************************)
(* Chains folded with Nova, proof by proof: a proof of so many steps from  *)
(* a state is accepted exactly if the chain is a behaviour of HeaderChain, *)
(* and what the verifier learns is the state of that behaviour.            *)
(*  k = "p"  public parameters were made                                   *)
(*  k = "v"  the proof of the first `upto` steps was checked               *)
(*  k = "w"  a proof of `upto` steps was offered for `steps` from `z`      *)
(***************************************************************************)
EXTENDS HeaderChain, HeaderReal, TLCExt, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.TRACE)
Heads == TLCEval([j \in 1..Len(Raw[1].headers) |-> ParseHeader(Raw[1].headers[j])])
Lists == Raw[1].lists              \* the headers of every case
M == Len(Raw) - 1
Ev(j) == Raw[j + 1]
First(j) == Ev(j).k = "p" \/ (Ev(j).k = "v" /\ Ev(j).upto = 1)

VARIABLES at, run, diff
nvars == <<st, hist, init, at, run, diff>>
NInit == /\ run \in {j \in 1..M : First(j)}
         /\ at = run
         /\ st = FromZ(Ev(IF Ev(run).k = "p" THEN run + 1 ELSE run).z)
         /\ init = st /\ hist = << >> /\ diff = {}
Here == at <= M /\ diff = {} /\ Ev(at).k = Ev(run).k /\ Ev(at).case = Ev(run).case
Claim == at <= M /\ diff = {} /\ Ev(at).k = "w" /\ Ev(run).k = "v" /\ Ev(at).case = Ev(run).case
H == Heads[Lists[Ev(at).case + 1][Ev(at).upto]]
Say(d) == /\ diff' = d
          /\ (d # {} => PrintT(<<"BADCHAIN", at, d>>))
          /\ at' = at + 1
          /\ UNCHANGED <<st, hist, init, run>>
Parameters == Here /\ Ev(at).k = "p" /\ Say(IF Ev(at).v = "acc" THEN {} ELSE {"NoParameters"})
Folded ==
  /\ Here /\ Ev(at).k = "v" /\ Ev(at).v = "acc" /\ Valid(st, H) /\ FromZ(Ev(at).zo) = Apply(st, H)
  /\ Append1(H)
  /\ at' = at + 1
  /\ UNCHANGED <<run, diff>>
FoldedWrongly ==
  /\ Here /\ Ev(at).k = "v" /\ Ev(at).v = "acc" /\ ~(Valid(st, H) /\ FromZ(Ev(at).zo) = Apply(st, H))
  /\ Say(IF Valid(st, H) THEN {"WrongState"} ELSE {"InvalidProved"})
Refused ==
  /\ Here /\ Ev(at).k = "v" /\ Ev(at).v # "acc"
  /\ Say(IF Valid(st, H) /\ Canonical(H) THEN {"ValidRefused"} ELSE {})
Misclaimed ==
  /\ Claim
  /\ Say(IF Ev(at).v = "acc" /\ ~(Ev(at).steps = Ev(at).upto /\ FromZ(Ev(at).z) = init) THEN {"FalseClaim"} ELSE {})
NNext == Parameters \/ Folded \/ FoldedWrongly \/ Refused \/ Misclaimed
NSpec == NInit /\ [][NNext]_nvars
Folds == diff = {}
=============================================================================

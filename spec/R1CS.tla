-------------------------------- MODULE R1CS --------------------------------
(***************************************************************************)
(* A recorded circuit as a state machine.  The file MACHINES holds circuits*)
(* of the real code over small prime fields, in an order of the wires in   *)
(* which as many as possible are determined by earlier ones; a state is a  *)
(* circuit and the values of a prefix of its wires, and a step chooses the *)
(* next undetermined wire.  The complete states are therefore exactly the  *)
(* satisfying assignments of the circuit on inputs of the gadget's domain: *)
(* whatever a prover does, it ends in one of them.                         *)
(*                                                                         *)
(*  circuit: [op, par, cst, p, cap, nb]  as in GadgetSpec                  *)
(*    nw   number of wires; wire 1 is the constant one                     *)
(*    nin  wires 2 .. nin + 1 are the inputs of the call, below lim        *)
(*    cons the constraints <<A, B, C>> (A * B = C), linear combinations as *)
(*         sequences of <<wire, coefficient>>                              *)
(*    det  for each wire: weights of the constraints that determine it     *)
(*         (empty: a choice)                                               *)
(*    close for each wire: the constraints on it and earlier wires only    *)
(***************************************************************************)
EXTENDS GadgetSpec, TLC, Json, IOUtils, SequencesExt

Circ == JsonDeserialize(IOEnv.MACHINES).circ

(* value of a linear combination; wires not yet chosen count as zero *)
Lc(l, x, p) == FoldLeft(LAMBDA s, t : (s + (IF t[1] <= Len(x) THEN t[2] * x[t[1]] ELSE 0)) % p, 0, l)
Residual(r, x, p) == (Lc(r[1], x, p) * Lc(r[2], x, p) + p - Lc(r[3], x, p)) % p
Closes(m, k, x) == \A j \in 1..Len(m.close[k]) : Residual(m.cons[m.close[k][j]], x, m.p) = 0

Determined(m, k, x) == FoldLeft(LAMBDA s, t : (s + t[2] * Residual(m.cons[t[1]], x, m.p)) % m.p, 0, m.det[k])

(* x extended by the wires it determines; << >> if a constraint fails *)
RECURSIVE Run(_, _)
Run(m, x) ==
    IF x = << >> THEN x
    ELSE IF ~Closes(m, Len(x), x) THEN << >>
    ELSE IF Len(x) = m.nw \/ m.det[Len(x) + 1] = << >> THEN x
    ELSE Run(m, Append(x, Determined(m, Len(x) + 1, x)))

Outs(m, x) == [i \in 1..Len(m.outs) |-> FromInt(Lc(m.outs[i], x, m.p))]
Event(m, x) ==
    [k |-> "f", op |-> m.op, par |-> m.par, cst |-> m.cst,
     in |-> [i \in 1..m.nin |-> FromInt(x[i + 1])],
     out |-> Outs(m, x), dec |-> << >>, bn |-> << >>, res |-> << >>, neg |-> FALSE,
     p |-> FromInt(m.p), cap |-> m.cap, nb |-> m.nb]

(* the values a single wire can have by the constraints on it alone (booleans, mostly) *)
OnlyOn(r, k) == \A i \in 1..3 : \A j \in 1..Len(r[i]) : r[i][j][1] \in {1, k}
ValuesFor(m, k) ==
    LET one == {j \in 1..Len(m.close[k]) : OnlyOn(m.cons[m.close[k][j]], k)}
        up  == IF k <= m.nin + 1 THEN m.lim[k - 1] ELSE m.p
    IN {v \in 0..(up - 1) :
          \A j \in one :
            LET r == m.cons[m.close[k][j]]
                at(l) == FoldLeft(LAMBDA s, t : (s + t[2] * (IF t[1] = 1 THEN 1 ELSE v)) % m.p, 0, l)
            IN (at(r[1]) * at(r[2]) + m.p - at(r[3])) % m.p = 0}
(* computed once *)
Choice == [c \in 1..Len(Circ) |-> [k \in 2..Circ[c].nw |-> IF Circ[c].det[k] = << >> THEN ValuesFor(Circ[c], k) ELSE {}]]

VARIABLES c, x
vars == <<c, x>>

Init == /\ c \in 1..Len(Circ)
        /\ x = Run(Circ[c], <<1>>)
Choose ==
    /\ x # << >>
    /\ Len(x) < Circ[c].nw
    /\ UNCHANGED c
    /\ \E v \in Choice[c][Len(x) + 1] :
         LET m == Circ[c]
             y == Append(x, v)
         IN /\ (Len(y) = m.nin + 1 => Pre(Event(m, y)))
            /\ x' = Run(m, y)
            /\ x' # << >>
Next == Choose
Spec == Init /\ [][Next]_vars

Complete == x # << >> /\ Len(x) = Circ[c].nw
(* every accepted assignment is a call that the gadget's relation allows *)
Sound == Complete => LET e == Event(Circ[c], x)
                     IN (Pre(e) /\ ~Legal(e)) => PrintT(<<"UNSOUND", c, x>>) /\ FALSE
(* the prefix respects the constraints it closes *)
TypeOK == x # << >> => /\ Len(x) \in 1..Circ[c].nw
                       /\ \A i \in 1..Len(x) : x[i] \in 0..(Circ[c].p - 1)
=============================================================================

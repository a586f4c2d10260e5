----------------------------- MODULE GadgetSpec -----------------------------
(***************************************************************************)
(* What every arithmetic gadget of the library means.                      *)
(*                                                                         *)
(* A gadget call is a record                                               *)
(*    e = [op, par, cst, in, out, bn, res, p, cap, nb]                     *)
(* op   the operation, par its integer parameters (limb width, limb counts,*)
(* bit sizes), cst its large constants, in / out the values on its input   *)
(* and output wires (naturals below the field modulus p, as BigNum digit   *)
(* sequences), cap / nb the field's CAPACITY and NUM_BITS, bn what the API *)
(* declares about the big naturals it returned, res plain return values.   *)
(*                                                                         *)
(*   Pre(e)        the domain on which the gadget makes a promise          *)
(*   Legal(e)      the relation every ACCEPTED call must satisfy, whoever  *)
(*                 chose the witness                                       *)
(*   MustAccept(e) the calls an honest prover must be able to complete     *)
(***************************************************************************)
EXTENDS BigNum, FiniteSets

\* ------------------------------------------------------------------ helpers
Sl(s, from, n) == SubSeq(s, from, from + n - 1)       \* n elements starting at from
AllBelow(ls, w) == \A i \in 1..Len(ls) : BitLen(ls[i]) <= w
AllLe(ls, m) == \A i \in 1..Len(ls) : Le(ls[i], m)
IsBit(x) == x = Zero \/ x = One
Bool(b) == IF b THEN One ELSE Zero
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN Zero ELSE Add(s[1], SumSeq(Tail(s)))
Pad(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE Zero]
AllZero(s) == \A i \in 1..Len(s) : s[i] = Zero
FAdd(a, b, p) == Mod(Add(a, b), p)
FMul(a, b, p) == Mod(Mul(a, b), p)
FNeg(a, p) == IF a = Zero THEN Zero ELSE Sub(p, a)
MaxWord(w) == Sub(Pow2(w), One)
Nat0(n) == FromInt(n)
CeilLog2(x) == IF Le(x, One) THEN 0 ELSE BitLen(Sub(x, One))   \* least k with 2^k >= x

\* ------------------------------------------------- field-size side conditions
(* Equality after carrying, with words up to M and limbs of w bits, makes  *)
(* sense only when a word, its carries and its padding fit the field.      *)
CarryRoom(M, w, e) == Le(Mul(FromInt(8), M), e.p) /\ w + 2 <= e.cap
RegroupRoom(M, w, e) == CeilLog2(Mul(Two, M)) + 1 <= e.cap /\ w + 2 <= e.cap
ProdWord(na, nb2, w) == Mul(FromInt(MinI(na, nb2)), Mul(MaxWord(w), MaxWord(w)))
FewCoeffs(n, e) == Lt(FromInt(n), e.p)

\* ------------------------------------------------------- order statistics
CountLt(s, x) == Cardinality({i \in 1..Len(s) : Lt(s[i], x)})
CountGt(s, x) == Cardinality({i \in 1..Len(s) : Lt(x, s[i])})
CountEq(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
(* x is the element at position Len \div 2 (from 0) of the sorted sequence *)
IsMedian(s, x) == /\ CountEq(s, x) >= 1
                  /\ CountLt(s, x) <= Len(s) \div 2
                  /\ CountLt(s, x) + CountEq(s, x) > Len(s) \div 2

\* ------------------------------------------------------- bit vector edits
(* codes: kind + 16 * argument, see harness/src/bv.rs *)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Edit(s, c) ==
    LET k == c % 16
        a == c \div 16
    IN CASE k = 0 -> Rev(s)
         [] k = 1 -> SubSeq(s, 1, MinI(a, Len(s)))
         [] k = 2 -> SubSeq(s, a + 1, Len(s))
         [] k = 3 -> [i \in 1..a |-> Zero] \o s
         [] k = 4 -> IF s = << >> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
         [] k = 5 -> Append(s, Bool(a = 1))
         [] k = 6 -> SubSeq(s, 1, a \div 2) \o <<Bool(a % 2 = 1)>> \o SubSeq(s, a \div 2 + 1, Len(s))
         [] k = 7 -> s \o s
         [] k = 8 -> s
         [] k = 9 -> s
         [] k = 10 -> s \o [i \in 1..a |-> Bool(i % 2 = 1)]
EditDefined(s, c) ==
    LET k == c % 16
        a == c \div 16
    IN CASE k = 2 -> a <= Len(s)
         [] k = 6 -> a \div 2 <= Len(s)
         [] OTHER -> TRUE
RECURSIVE Edits(_, _)
Edits(s, cs) == IF cs = << >> THEN s ELSE Edits(Edit(s, cs[1]), Tail(cs))
RECURSIVE EditsDefined(_, _)
EditsDefined(s, cs) == IF cs = << >> THEN TRUE
                       ELSE EditDefined(s, cs[1]) /\ EditsDefined(Edit(s, cs[1]), Tail(cs))
(* bits, least significant first, as a number *)
BitsNat(s) == Limbs(s, 1)

\* -------------------------------------------------------------- polynomials
RECURSIVE ConvFrom(_, _, _, _, _)
ConvFrom(a, b, k, i, p) ==
    IF i > Len(a) THEN Zero
    ELSE LET j == k + 1 - i
         IN FAdd(IF j \in 1..Len(b) THEN FMul(a[i], b[j], p) ELSE Zero, ConvFrom(a, b, k, i + 1, p), p)
PolyProd(a, b, p) == [k \in 1..(Len(a) + Len(b) - 1) |-> ConvFrom(a, b, k, 1, p)]
PolySum(a, b, p) == LET n == MaxI(Len(a), Len(b))
                    IN [i \in 1..n |-> FAdd(Pad(a, n)[i], Pad(b, n)[i], p)]
RECURSIVE PolyEval(_, _, _)
PolyEval(a, x, p) == IF a = << >> THEN Zero
                     ELSE FAdd(a[1], FMul(x, PolyEval(Tail(a), x, p), p), p)

\* --------------------------------------------------------- mux tree indices
RECURSIVE BitsIndex(_, _)
BitsIndex(s, acc) == IF s = << >> THEN acc
                     ELSE BitsIndex(Tail(s), 2 * acc + (IF s[1] = One THEN 1 ELSE 0))

\* ------------------------------------------------------- difficulty constants
TwoWeeks == FromInt(2016 * 10 * 60)
MinSpan == FromInt((2016 * 10 * 60) \div 4)
MaxSpan == FromInt(2016 * 10 * 60 * 4)
SpanOk(t) == Le(MinSpan, t) /\ Le(t, MaxSpan)

-----------------------------------------------------------------------------
(* Accessors for the standard layouts *)
P(e, i) == e.par[i]
A1(e) == Sl(e.in, 1, P(e, 2))                                  \* first operand of (w, na, ...)
B1(e) == Sl(e.in, P(e, 2) + 1, P(e, 3))                        \* second operand of (w, na, nb, ...)
VA(e) == Limbs(A1(e), P(e, 1))
VB(e) == Limbs(B1(e), P(e, 1))
WF(ls, e) == AllBelow(ls, P(e, 1))

(* Bounds on input wires under which the gadget is used (the machine R1CS  *)
(* enumerates inputs below these).                                         *)
WithinMax(ls, m) == AllLe(ls, m)

(* a caller may declare that a number has at least mb bits (0: no claim) *)
Declared(mb, v) == mb = 0 \/ BitLen(v) >= mb
DeclaredAB(e) == Declared(P(e, 4), VA(e)) /\ Declared(P(e, 5), VB(e))

PreOp(e) ==
  CASE e.op \in {"less_than", "leq"} ->
         P(e, 1) + 2 <= e.cap /\ AllBelow(e.in, P(e, 1))
    [] e.op = "vmedian" -> Len(e.in) % 2 = 0 /\ 34 <= e.cap
    [] e.op = "wmedian" -> Len(e.in) % 2 = 0 /\ 34 <= e.cap /\ AllBelow(e.in, 32)
    [] e.op = "median" -> Len(e.in) >= 1
    [] e.op \in {"equals", "is_equal", "equal", "bn_eq", "as_nums", "as_limbs", "inputize", "ginputize",
                 "as_alloc", "num_alloc", "gassert_eq", "assert_eq", "poly_sum", "poly_eval",
                 "f2nat", "n_bits", "params", "bn_one", "bit_lit", "bit_not", "bit_sapling",
                 "bit_const", "bit_alloc", "gswitch"} -> TRUE
    [] e.op = "fits" -> P(e, 1) <= e.cap
    [] e.op = "decompose" -> P(e, 1) <= e.cap
    [] e.op = "from_num" -> P(e, 1) <= e.cap - 3 /\ P(e, 2) >= 1
    [] e.op \in {"well_formed", "bn_decompose"} -> P(e, 1) \in 1..e.cap
    [] e.op = "full_bits" -> P(e, 1) \in 1..e.cap /\ WF(e.in, e)
    [] e.op = "min_bits" -> P(e, 1) \in 1..e.cap /\ P(e, 3) \in 1..(P(e, 1) * P(e, 2))
                            /\ Lt(FromInt(P(e, 1) * P(e, 2)), e.p)
    [] e.op = "eq_carry" ->
         LET M == MaxN(e.cst[1], e.cst[2])
         IN CarryRoom(M, P(e, 1), e) /\ M # Zero /\ AllLe(A1(e), e.cst[1]) /\ AllLe(B1(e), e.cst[2])
    [] e.op = "eq_regroup" ->
         LET M == MaxN(e.cst[1], e.cst[2])
         IN RegroupRoom(M, P(e, 1), e) /\ M # Zero /\ AllLe(A1(e), e.cst[1]) /\ AllLe(B1(e), e.cst[2])
    [] e.op = "add" -> DeclaredAB(e) /\ Lt(Add(e.cst[1], e.cst[2]), e.p)
                       /\ AllLe(A1(e), e.cst[1]) /\ AllLe(B1(e), e.cst[2])
    [] e.op \in {"sub", "min"} ->
         (e.op = "min" => DeclaredAB(e)) /\ WF(e.in, e) /\ RegroupRoom(Mul(Two, MaxWord(P(e, 1))), P(e, 1), e)
    [] e.op = "shift" -> Lt(Add(e.cst[1], e.cst[2]), Pow2(e.cap)) /\ AllLe(e.in, e.cst[1])
    [] e.op = "shift_eq" ->
         CarryRoom(Add(e.cst[1], e.cst[2]), P(e, 1), e) /\ AllLe(A1(e), e.cst[1])
         /\ WF(B1(e), e)
    [] e.op = "scale" -> Lt(Mul(e.cst[1], e.cst[2]), Pow2(e.cap)) /\ AllLe(e.in, e.cst[1])
    [] e.op \in {"mult", "divides"} ->
         (e.op = "mult" => DeclaredAB(e)) /\ WF(e.in, e) /\ FewCoeffs(P(e, 2) + 2 * P(e, 3), e)
         /\ RegroupRoom(ProdWord(P(e, 2), P(e, 3), P(e, 1)), P(e, 1), e)
    [] e.op = "mult_mod" ->
         WF(e.in, e) /\ FewCoeffs(P(e, 2) + P(e, 3) + P(e, 4), e)
         /\ RegroupRoom(Add(MaxWord(P(e, 1)),
                            Mul(FromInt(MaxI(MinI(P(e, 2), P(e, 3)), MinI(P(e, 2) + P(e, 3), P(e, 4)))),
                                Mul(MaxWord(P(e, 1)), MaxWord(P(e, 1))))), P(e, 1), e)
         /\ LET m == Limbs(Sl(e.in, P(e, 2) + P(e, 3) + 1, P(e, 4)), P(e, 1))
            IN P(e, 5) = 0 \/ BitLen(m) >= P(e, 5)
    [] e.op = "red_mod" ->
         WF(e.in, e) /\ FewCoeffs(P(e, 2) + P(e, 3), e)
         /\ RegroupRoom(Add(MaxWord(P(e, 1)),
                            Mul(FromInt(MinI(P(e, 2), P(e, 3))),
                                Mul(MaxWord(P(e, 1)), MaxWord(P(e, 1))))), P(e, 1), e)
         /\ (P(e, 4) = 0 \/ BitLen(Limbs(Sl(e.in, P(e, 2) + 1, P(e, 3)), P(e, 1))) >= P(e, 4))
    [] e.op = "prod_mod" ->
         WF(e.in, e) /\ FewCoeffs(P(e, 2) + P(e, 3) + P(e, 4), e)
         /\ RegroupRoom(Add(MaxWord(P(e, 1)),
                            Mul(FromInt(MaxI(MinI(P(e, 2), P(e, 3)), MinI(P(e, 2) + P(e, 3), P(e, 4)))),
                                Mul(MaxWord(P(e, 1)), MaxWord(P(e, 1))))), P(e, 1), e)
    [] e.op \in {"mux", "switch"} ->
         /\ IsBit(e.in[1]) /\ WF(Tail(e.in), e)
         /\ e.op = "mux" => DeclaredAB([e EXCEPT !.in = Tail(e.in)])
    [] e.op = "gmux" -> IsBit(e.in[1])
    [] e.op = "mux_tree" -> (\A i \in 1..P(e, 1) : IsBit(e.in[i]))
                            /\ AllBelow(SubSeq(e.in, P(e, 1) + 1, Len(e.in)), P(e, 4))
    [] e.op = "gmux_tree" -> \A i \in 1..P(e, 1) : IsBit(e.in[i])
    [] e.op = "from_limbs" -> WF(e.in, e)
    [] e.op = "alloc_limbs" -> Lt(MaxWord(P(e, 1)), e.p)
                               /\ (IF e.cst = << >> THEN WF(e.in, e) ELSE AllLe(e.in, e.cst[1]) /\ Lt(e.cst[1], e.p))
    [] e.op = "alloc_nat" -> P(e, 1) <= e.cap
    [] e.op = "concat" -> DeclaredAB(e) /\ Le(e.cst[1], MaxWord(e.cap)) /\ AllLe(A1(e), e.cst[1]) /\ AllLe(B1(e), e.cst[2])
    [] e.op = "truncate" -> Declared(P(e, 4), VA(e)) /\ WF(e.in, e) /\ P(e, 3) >= 1
    [] e.op = "with_n" -> Declared(P(e, 4), VA(e)) /\ WF(e.in, e)
    [] e.op = "group" -> Declared(P(e, 4), VA(e)) /\ AllLe(e.in, e.cst[1]) /\ P(e, 1) * P(e, 3) + BitLen(e.cst[1]) <= e.cap
    [] e.op = "recompose" -> (\A i \in 1..Len(e.in) : IsBit(e.in[i])) /\ P(e, 1) < e.cap /\ P(e, 2) >= 1
    [] e.op = "from_poly" -> AllLe(e.in, e.cst[1])
    [] e.op = "poly_prod" -> FewCoeffs(P(e, 1) + P(e, 2), e)
    [] e.op = "num_eq_bits" -> P(e, 1) <= e.cap /\ \A i \in 2..Len(e.in) : IsBit(e.in[i])
    [] e.op = "num_eq_bv" ->
         /\ \A i \in 2..Len(e.in) : IsBit(e.in[i])
         /\ EditsDefined(Tail(e.in), Tail(e.par)) /\ Len(Edits(Tail(e.in), Tail(e.par))) <= e.cap
    [] e.op \in {"bv", "bv_into"} ->
         (\A i \in 1..Len(e.in) : IsBit(e.in[i])) /\ EditsDefined(e.in, Tail(e.par))
    [] e.op = "bv_get" -> \A i \in 1..Len(e.in) : IsBit(e.in[i])
    [] e.op \in {"nat2f", "negnat2f", "n2l", "l2n"} -> TRUE
    [] e.op = "u2f" -> Lt(e.in[1], e.p)
    [] e.op = "f2u" -> TRUE
    [] e.op = "calc_diff" ->
         \* target and time span fit what the header rules feed them
         BitLen(e.in[1]) <= 253 /\ BitLen(e.in[2]) <= 32 /\ e.cap >= 250
    [] e.op = "ver_diff" -> e.cap >= 250
    [] OTHER -> FALSE

Pre(e) == PreOp(e) = TRUE

(* Relation between inputs and outputs of an accepted call *)
Legal(e) ==
  CASE e.op = "less_than" -> e.out = <<Bool(Lt(e.in[1], e.in[2]))>>
    [] e.op = "leq" -> e.out = <<Bool(Le(e.in[1], e.in[2]))>>
    [] e.op \in {"vmedian", "wmedian"} -> e.out = <<Bool(IsMedian(SubSeq(e.in, 1, P(e, 1)), e.in[P(e, 1) + 1]))>>
    [] e.op = "median" -> Len(e.res) = 1 /\ IsMedian(e.in, e.res[1])
    [] e.op = "equals" -> e.out = <<Bool(e.in[1] = e.in[2])>>
    [] e.op = "is_equal" -> P(e, 2) = P(e, 3) /\ e.out = <<Bool(A1(e) = B1(e))>>
    [] e.op = "bn_eq" ->   \* numbers of different layouts may count as different
         /\ VA(e) # VB(e) => e.res = <<Zero>>
         /\ VA(e) = VB(e) /\ P(e, 2) = P(e, 3) => e.res = <<One>>
    [] e.op = "equal" -> LET n == MaxI(P(e, 2), P(e, 3)) IN Pad(A1(e), n) = Pad(B1(e), n)
    [] e.op = "fits" -> BitLen(e.in[1]) <= P(e, 1)
    [] e.op = "decompose" -> /\ Len(e.out) = P(e, 1) /\ \A i \in 1..Len(e.out) : IsBit(e.out[i])
                             /\ BitsNat(e.out) = e.in[1]
    [] e.op = "from_num" -> Len(e.out) = P(e, 2) /\ WF(e.out, e) /\ Limbs(e.out, P(e, 1)) = e.in[1]
    [] e.op = "well_formed" -> WF(e.in, e)
    [] e.op = "bn_decompose" ->
         /\ Len(e.out) = P(e, 1) * P(e, 2)
         /\ \A i \in 1..Len(e.out) : IsBit(e.out[i])
         /\ \A i \in 1..P(e, 2) : BitsNat(Sl(e.out, (i - 1) * P(e, 1) + 1, P(e, 1))) = e.in[i]
    [] e.op = "full_bits" -> BitLen(Limbs(e.in, P(e, 1))) = P(e, 1) * P(e, 2)
                             /\ (e.res # << >> => e.res = <<FromInt(P(e, 1) * P(e, 2))>>)
    [] e.op = "min_bits" -> WF(e.in, e) /\ BitLen(Limbs(e.in, P(e, 1))) >= P(e, 3)
                            /\ (e.res # << >> => e.res = <<FromInt(P(e, 3))>>)
    [] e.op \in {"eq_carry", "eq_regroup"} -> VA(e) = VB(e)
    [] e.op = "add" -> LET n == MaxI(P(e, 2), P(e, 3))
                       IN e.out = [i \in 1..n |-> Add(Pad(A1(e), n)[i], Pad(B1(e), n)[i])]
    [] e.op = "sub" -> WF(e.out, e) /\ Len(e.out) = P(e, 2) /\ VA(e) = Add(VB(e), Limbs(e.out, P(e, 1)))
    [] e.op = "min" -> WF(e.out, e) /\ Limbs(e.out, P(e, 1)) = MinN(VA(e), VB(e))
    [] e.op = "shift" -> e.out = [i \in 1..P(e, 2) |-> IF i = 1 THEN Add(e.in[1], e.cst[2]) ELSE e.in[i]]
    [] e.op = "shift_eq" -> Add(VA(e), e.cst[2]) = VB(e)
    [] e.op = "scale" -> e.out = [i \in 1..P(e, 2) |-> Mul(e.in[i], e.cst[2])]
    [] e.op = "mult" -> WF(e.out, e) /\ Limbs(e.out, P(e, 1)) = Mul(VA(e), VB(e))
    [] e.op = "divides" -> IF VA(e) = Zero THEN VB(e) = Zero ELSE Mod(VB(e), VA(e)) = Zero
    [] e.op = "mult_mod" ->
         LET w == P(e, 1)
             a == VA(e)
             b == VB(e)
             m == Limbs(Sl(e.in, P(e, 2) + P(e, 3) + 1, P(e, 4)), w)
             nr == P(e, 4)
             q == Limbs(SubSeq(e.out, 1, Len(e.out) - nr), w)
             r == Limbs(SubSeq(e.out, Len(e.out) - nr + 1, Len(e.out)), w)
         IN WF(e.out, e) /\ Mul(a, b) = Add(Mul(q, m), r) /\ Lt(r, m)
    [] e.op = "red_mod" ->
         LET w == P(e, 1)
             m == Limbs(Sl(e.in, P(e, 2) + 1, P(e, 3)), w)
         IN WF(e.out, e) /\ m # Zero /\ Limbs(e.out, w) = Mod(VA(e), m)
    [] e.op = "prod_mod" ->
         LET w == P(e, 1)
             m == Limbs(Sl(e.in, P(e, 2) + P(e, 3) + 1, P(e, 4)), w)
             r == Limbs(Sl(e.in, P(e, 2) + P(e, 3) + P(e, 4) + 1, P(e, 5)), w)
             q == Limbs(e.out, w)
         IN WF(e.out, e) /\ Mul(VA(e), VB(e)) = Add(Mul(q, m), r)
    [] e.op = "mux" ->
         LET n == MaxI(P(e, 2), P(e, 3))
             a == Pad(Sl(e.in, 2, P(e, 2)), n)
             b == Pad(Sl(e.in, 2 + P(e, 2), P(e, 3)), n)
         IN e.out = (IF e.in[1] = One THEN b ELSE a)
    [] e.op = "gmux" -> P(e, 1) = P(e, 2)
         /\ e.out = (IF e.in[1] = One THEN Sl(e.in, 2 + P(e, 1), P(e, 2)) ELSE Sl(e.in, 2, P(e, 1)))
    [] e.op \in {"mux_tree", "gmux_tree"} ->
         /\ P(e, 2) = Pow2I(P(e, 1))
         /\ LET k == BitsIndex(Sl(e.in, 1, P(e, 1)), 0)
            IN e.out = Sl(e.in, P(e, 1) + k * P(e, 3) + 1, P(e, 3))
    [] e.op = "switch" ->
         LET n == MaxI(P(e, 2), P(e, 3))
             a == Pad(Sl(e.in, 2, P(e, 2)), n)
             b == Pad(Sl(e.in, 2 + P(e, 2), P(e, 3)), n)
         IN e.out = (IF e.in[1] = One THEN b \o a ELSE a \o b)
    [] e.op = "gswitch" ->
         LET n == P(e, 1)
             a == Sl(e.in, 2, n)
             b == Sl(e.in, 2 + n, n)
         IN IsBit(e.in[1]) => e.out = (IF e.in[1] = One THEN b \o a ELSE a \o b)
    [] e.op = "assert_eq" -> A1(e) = B1(e)
    [] e.op = "gassert_eq" -> Sl(e.in, 1, P(e, 1)) = Sl(e.in, P(e, 1) + 1, P(e, 2))
    [] e.op \in {"inputize", "ginputize", "as_nums", "as_limbs", "from_limbs", "from_poly", "alloc_limbs",
                 "as_alloc", "num_alloc"} -> e.out = e.in
    [] e.op = "alloc_nat" -> Len(e.out) = P(e, 2)
         /\ (e.k = "h" => WF(e.out, e) /\ Limbs(e.out, P(e, 1)) = e.in[1])
    [] e.op = "concat" -> e.out = B1(e) \o A1(e)
    [] e.op = "truncate" -> e.out = SubSeq(e.in, 1, MinI(P(e, 2), P(e, 3)))
    [] e.op = "with_n" -> e.out = Pad(e.in, P(e, 3)) /\ P(e, 3) >= P(e, 2)
    [] e.op = "group" ->
         LET g == P(e, 3)
             n == ((P(e, 2) - 1) \div g) + 1
         IN e.out = [i \in 1..n |-> Limbs(SubSeq(e.in, (i - 1) * g + 1, MinI(i * g, P(e, 2))), P(e, 1))]
    [] e.op = "recompose" ->
         LET w == P(e, 1)
             n == ((P(e, 2) - 1) \div w) + 1
         IN e.out = [i \in 1..n |-> BitsNat(SubSeq(e.in, (i - 1) * w + 1, MinI(i * w, P(e, 2))))]
    [] e.op = "bn_one" -> e.out = <<One>>
    [] e.op = "n_bits" ->   \* an upper bound on the size that any admitted value respects
         e.res = <<FromInt(P(e, 1) * (P(e, 2) - 1) + BitLen(e.cst[1]))>>
    [] e.op = "params" -> e.res = <<MaxWord(P(e, 1)), FromInt(P(e, 1)), FromInt(P(e, 2)), Zero>>
    [] e.op = "n2l" -> /\ Len(e.res) = P(e, 2) /\ AllBelow(e.res, P(e, 1))
                       /\ Limbs(e.res, P(e, 1)) = e.in[1]
    [] e.op = "l2n" -> e.res = <<Limbs(e.in, P(e, 1))>>
    [] e.op = "poly_prod" -> e.out = PolyProd(Sl(e.in, 1, P(e, 1)), Sl(e.in, P(e, 1) + 1, P(e, 2)), e.p)
    [] e.op = "poly_sum" -> e.out = PolySum(Sl(e.in, 1, P(e, 1)), Sl(e.in, P(e, 1) + 1, P(e, 2)), e.p)
    [] e.op = "poly_eval" -> e.res = <<PolyEval(e.in, e.cst[1], e.p)>>
    [] e.op = "num_eq_bits" -> e.in[1] = BitsNat(Tail(e.in))
    [] e.op = "num_eq_bv" -> e.in[1] = BitsNat(Edits(Tail(e.in), Tail(e.par)))
    [] e.op \in {"bv", "bv_into"} -> e.out = Edits(e.in, Tail(e.par))
                                     /\ (e.res # << >> => e.res = <<FromInt(Len(e.out))>>)
    [] e.op = "bv_get" -> IF P(e, 2) < Len(e.in) THEN e.out = <<e.in[P(e, 2) + 1]>> /\ e.res = << >>
                          ELSE e.out = << >> /\ e.neg
    [] e.op = "bit_alloc" -> IsBit(e.in[1]) /\ e.out = e.in
    [] e.op = "bit_const" -> e.in[1] = Bool(P(e, 1) = 1)
    [] e.op = "bit_not" -> IsBit(e.in[1]) /\ e.out = <<Bool(e.in[1] = Zero)>>
    [] e.op = "bit_lit" -> e.out = <<Bool(P(e, 1) % 2 = 1)>>
    [] e.op = "bit_sapling" -> IsBit(e.in[1]) /\ e.out = <<CASE P(e, 1) = 0 -> e.in[1]
                                        [] P(e, 1) = 1 -> Bool(e.in[1] = Zero)
                                        [] P(e, 1) = 2 -> Zero
                                        [] OTHER -> One>>
    [] e.op = "f2nat" -> e.res = <<e.in[1]>> /\ ~e.neg
    [] e.op = "nat2f" -> IF Lt(e.in[1], e.p) THEN e.res = <<e.in[1]>> /\ ~e.neg ELSE e.neg
    [] e.op = "negnat2f" -> e.in[1] # Zero => e.neg
    [] e.op = "u2f" -> e.res = <<e.in[1]>>
    [] e.op = "f2u" -> e.res = <<e.in[1]>>
    [] e.op = "calc_diff" -> SpanOk(e.in[2]) /\ AllBelow(e.out, 64)
                             /\ Limbs(e.out, 64) = Div(Mul(e.in[1], e.in[2]), TwoWeeks)
    [] e.op = "ver_diff" ->
         /\ SpanOk(e.in[5])
         /\ Add(Shl(e.in[1], 128), e.in[2])
              = Div(Mul(Add(Shl(e.in[3], 128), e.in[4]), e.in[5]), TwoWeeks)
    [] OTHER -> FALSE

(* The calls an honest prover must be able to complete.  For pure         *)
(* assertions this is the asserted relation itself.                        *)
MustAccept(e) ==
  CASE e.op \in {"equal", "fits", "well_formed", "full_bits", "min_bits", "shift_eq",
                 "assert_eq", "gassert_eq", "num_eq_bits", "num_eq_bv", "bit_const", "ver_diff"}
              -> Legal([e EXCEPT !.res = << >>])
    [] e.op = "is_equal" -> P(e, 2) = P(e, 3)
    [] e.op = "decompose" -> BitLen(e.in[1]) <= P(e, 1)
    [] e.op \in {"from_num", "alloc_nat", "n2l"} -> BitLen(e.in[1]) <= P(e, 1) * P(e, 2)
    [] e.op = "bn_decompose" -> WF(e.in, e)
    [] e.op \in {"eq_carry", "eq_regroup"} -> VA(e) = VB(e)
    [] e.op = "sub" -> Le(VB(e), VA(e))
    [] e.op = "divides" -> VA(e) # Zero /\ Mod(VB(e), VA(e)) = Zero
    [] e.op = "mult_mod" -> Limbs(Sl(e.in, P(e, 2) + P(e, 3) + 1, P(e, 4)), P(e, 1)) # Zero
    [] e.op = "red_mod" -> VB(e) # Zero
    [] e.op = "prod_mod" ->
         LET m == Limbs(Sl(e.in, P(e, 2) + P(e, 3) + 1, P(e, 4)), P(e, 1))
         IN m # Zero /\ Limbs(Sl(e.in, P(e, 2) + P(e, 3) + P(e, 4) + 1, P(e, 5)), P(e, 1))
                          = Mod(Mul(VA(e), VB(e)), m)
    [] e.op = "gmux" -> P(e, 1) = P(e, 2)
    [] e.op \in {"mux_tree", "gmux_tree"} -> P(e, 2) = Pow2I(P(e, 1))
    [] e.op = "with_n" -> P(e, 3) >= P(e, 2)
    [] e.op \in {"gswitch", "bit_alloc", "bit_not", "bit_sapling"} -> IsBit(e.in[1])
    [] e.op = "f2u" -> BitLen(e.in[1]) <= 63
    [] e.op = "calc_diff" -> SpanOk(e.in[2])
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* What the API declares about a returned big natural agrees with its wires *)
Coherent(e) ==
  \A k \in 1..Len(e.bn) :
    LET b == e.bn[k]
    IN /\ b.cnt = b.n
       /\ b.has /\ ~b.neg
       /\ LET ls == SubSeq(e.out, b.first + 1, b.first + b.cnt)
          IN /\ Len(ls) = b.n
             /\ b.val = Limbs(ls, b.w)
             /\ \A i \in 1..Len(ls) : Le(ls[i], b.max)
             /\ (b.mb > 0 => BitLen(b.val) >= b.mb)
(* The witness the API declares for its outputs is the one on its wires *)
DeclOk(e) == e.dec = e.out
=============================================================================

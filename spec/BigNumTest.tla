----------------------------- MODULE BigNumTest -----------------------------
(***************************************************************************)
(* The TLA+ definitions of BigNum (module BigNumPlain is a copy of its     *)
(* text, so the Java overrides of BigNum do not apply to it) agree with    *)
(* the overrides that TLC uses, on random operands.                        *)
(***************************************************************************)
EXTENDS BigNum, TLC
P == INSTANCE BigNumPlain

VARIABLES n, a, b, c
vars == <<n, a, b, c>>
Rnd(k) == RandomElement(0..k)
RndNat == LET len == Rnd(7)
              kind == Rnd(5)
          IN Norm([i \in 1..len |-> CASE kind = 0 -> 0
                                      [] kind = 1 -> 4095
                                      [] kind = 2 -> Rnd(1) * 4095
                                      [] OTHER -> Rnd(4095)])
Init == n = 0 /\ a = << >> /\ b = <<1>> /\ c = 0
Next == n < 400 /\ n' = n + 1 /\ a' = RndNat /\ b' = RndNat /\ c' = Rnd(40)
Spec == Init /\ [][Next]_vars

Digits == IsNat(a) /\ IsNat(b) /\ IsNat(Add(a, b)) /\ IsNat(Mul(a, b))
SameAdd == Add(a, b) = P!Add(a, b)
SameMul == Mul(a, b) = P!Mul(a, b)
SameSub == Le(b, a) => Sub(a, b) = P!Sub(a, b)
SameCmp == /\ Lt(a, b) = P!Lt(a, b) /\ Le(a, b) = P!Le(a, b) /\ Cmp(a, b) = P!Cmp(a, b)
           /\ MaxN(a, b) = P!MaxN(a, b) /\ MinN(a, b) = P!MinN(a, b)
SameDiv == b # Zero => /\ DivMod(a, b) = P!DivMod(a, b) /\ Div(a, b) = P!Div(a, b) /\ Mod(a, b) = P!Mod(a, b)
                       /\ a = Add(Mul(Div(a, b), b), Mod(a, b))
SameBits == /\ Shl(a, c) = P!Shl(a, c) /\ Shr(a, c) = P!Shr(a, c) /\ Low(a, c) = P!Low(a, c)
            /\ Pow2(c) = P!Pow2(c) /\ BitLen(a) = P!BitLen(a) /\ BitAt(a, c) = P!BitAt(a, c)
            /\ a = Add(Shl(Shr(a, c), c), Low(a, c))
SameBytes == LET s == [i \in 1..(c % 9) |-> (c * 37 + i * 101) % 256]
             IN /\ BytesBE(s) = P!BytesBE(s) /\ BytesLE(s) = P!BytesLE(s)
                /\ Limbs(<<a, b, a>>, c + 1) = P!Limbs(<<a, b, a>>, c + 1)
                /\ FromInt(c * 1000003) = P!FromInt(c * 1000003)
Same == Digits /\ SameAdd /\ SameMul /\ SameSub /\ SameCmp /\ SameDiv /\ SameBits /\ SameBytes
=============================================================================

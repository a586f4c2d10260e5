------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Natural numbers of any size as little-endian digit sequences in base    *)
(* 4096, normalised (no trailing zero digit; zero is << >>).  TLC integers *)
(* are 32-bit, so every intermediate value below stays under 2^31.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

Base == 4096
DigitBits == 12

RECURSIVE Norm(_)
Norm(s) == IF s = << >> THEN s
           ELSE IF s[Len(s)] # 0 THEN s
           ELSE Norm(SubSeq(s, 1, Len(s) - 1))

IsNat(s) == /\ \A i \in 1..Len(s) : s[i] \in 0..(Base - 1)
            /\ (s = << >> \/ s[Len(s)] # 0)

Zero == << >>

RECURSIVE FromInt(_)
FromInt(n) == IF n = 0 THEN << >> ELSE <<n % Base>> \o FromInt(n \div Base)

One == <<1>>
Two == <<2>>

(* only for numbers known to be small *)
RECURSIVE ToInt(_)
ToInt(s) == IF s = << >> THEN 0 ELSE s[1] + Base * ToInt(Tail(s))

Dig(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0
MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1
                    ELSE CmpFrom(a, b, i - 1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1
             ELSE IF Len(a) > Len(b) THEN 1
             ELSE CmpFrom(a, b, Len(a))
Lt(a, b) == Cmp(a, b) = -1
Le(a, b) == Cmp(a, b) # 1
MaxN(a, b) == IF Le(a, b) THEN b ELSE a
MinN(a, b) == IF Le(a, b) THEN a ELSE b

(* carry propagation over a sequence of non-negative columns *)
RECURSIVE CarryFrom(_, _, _)
CarryFrom(cols, i, c) ==
    IF i > Len(cols)
    THEN FromInt(c)
    ELSE LET t == cols[i] + c IN <<t % Base>> \o CarryFrom(cols, i + 1, t \div Base)
Carry(cols) == Norm(CarryFrom(cols, 1, 0))

Add(a, b) == Carry([i \in 1..MaxI(Len(a), Len(b)) |-> Dig(a, i) + Dig(b, i)])

(* a - b, for b <= a *)
RECURSIVE BorrowFrom(_, _, _, _)
BorrowFrom(a, b, i, br) ==
    IF i > Len(a) THEN << >>
    ELSE LET t == a[i] - Dig(b, i) - br
         IN IF t < 0 THEN <<t + Base>> \o BorrowFrom(a, b, i + 1, 1)
                     ELSE <<t>> \o BorrowFrom(a, b, i + 1, 0)
Sub(a, b) == Norm(BorrowFrom(a, b, 1, 0))

RECURSIVE ColSum(_, _, _, _, _)
ColSum(a, b, k, i, hi) ==          \* sum of a[i] * b[k - i] for i in i..hi
    IF i > hi THEN 0 ELSE a[i] * b[k - i] + ColSum(a, b, k, i + 1, hi)
(* columns stay below 2^31 for operands of at most 120 digits *)
Mul(a, b) ==
    IF a = << >> \/ b = << >> THEN << >>
    ELSE Carry([k \in 1..(Len(a) + Len(b) - 1) |->
                  ColSum(a, b, k + 1, MaxI(1, k + 1 - Len(b)), MinI(k, Len(a)))])

MulSmall(a, n) == Mul(a, FromInt(n))

RECURSIVE Pow2I(_)
Pow2I(n) == IF n = 0 THEN 1 ELSE 2 * Pow2I(n - 1)
(* 2^n *)
Pow2(n) == [i \in 1..(n \div DigitBits) |-> 0] \o <<Pow2I(n % DigitBits)>>

(* a * 2^n *)
Shl(a, n) == IF a = << >> THEN << >>
             ELSE LET m == Pow2I(n % DigitBits)
                  IN [i \in 1..(n \div DigitBits) |-> 0] \o Carry([i \in 1..Len(a) |-> a[i] * m])
(* floor(a / 2^n) *)
Shr(a, n) ==
    LET d == n \div DigitBits
        m == Pow2I(n % DigitBits)
        k == Base \div m
    IN IF Len(a) <= d THEN << >>
       ELSE Norm([i \in 1..(Len(a) - d) |->
                    (a[i + d] \div m) + (Dig(a, i + d + 1) % m) * k])
(* a mod 2^n *)
Low(a, n) ==
    LET d == n \div DigitBits
        m == Pow2I(n % DigitBits)
    IN IF Len(a) <= d THEN a
       ELSE Norm(SubSeq(a, 1, d) \o <<a[d + 1] % m>>)

BitLenI(n) == CHOOSE k \in 0..31 : (k = 0 /\ n = 0) \/ (k > 0 /\ n >= Pow2I(k - 1) /\ (k = 31 \/ n < Pow2I(k)))
BitLen(a) == IF a = << >> THEN 0 ELSE DigitBits * (Len(a) - 1) + BitLenI(a[Len(a)])
BitAt(a, i) == (Dig(a, (i \div DigitBits) + 1) \div Pow2I(i % DigitBits)) % 2

(* largest q in lo..hi with q * b <= r  (binary search) *)
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN IF Le(MulSmall(b, mid), r) THEN QDigit(r, b, mid, hi)
                                       ELSE QDigit(r, b, lo, mid - 1)
(* <<quotient digits so far (most significant first), remainder>> *)
RECURSIVE DivLoop(_, _, _, _, _)
DivLoop(a, b, i, q, r) ==
    IF i = 0 THEN <<q, r>>
    ELSE LET r2 == Norm(<<a[i]>> \o r)
             d  == IF Lt(r2, b) THEN 0 ELSE QDigit(r2, b, 1, Base - 1)
         IN DivLoop(a, b, i - 1, <<d>> \o q, IF d = 0 THEN r2 ELSE Sub(r2, MulSmall(b, d)))
(* <<floor(a / b), a mod b>> for b # 0 *)
DivMod(a, b) ==
    IF Lt(a, b) THEN <<Zero, a>>
    ELSE LET x == DivLoop(a, b, Len(a), << >>, << >>) IN <<Norm(x[1]), x[2]>>
Div(a, b) == DivMod(a, b)[1]
Mod(a, b) == DivMod(a, b)[2]

(* limbs (little-endian, width w bits) to a number *)
RECURSIVE Limbs(_, _)
Limbs(ls, w) == IF ls = << >> THEN << >>
                ELSE Add(ls[1], Shl(Limbs(Tail(ls), w), w))
(* big-endian bytes to a number *)
RECURSIVE BytesBE(_)
BytesBE(bs) == IF bs = << >> THEN << >>
               ELSE Add(Shl(BytesBE(SubSeq(bs, 1, Len(bs) - 1)), 8), FromInt(bs[Len(bs)]))
Reverse8(bs) == [i \in 1..Len(bs) |-> bs[Len(bs) + 1 - i]]
BytesLE(bs) == BytesBE(Reverse8(bs))
=============================================================================

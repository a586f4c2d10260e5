---------------------------- MODULE HeaderRules -----------------------------
(***************************************************************************)
(* The consensus rules one folding step has to enforce, over numbers of    *)
(* BigNum and without reference to how a circuit might check them.         *)
(*                                                                         *)
(* A header is [prev, time, exp, mant, neg, hash]: the hash of the block   *)
(* it extends, its time, the compact difficulty (exponent, mantissa, sign) *)
(* and its own hash.  A state is what the circuit carries between steps:   *)
(* [tip, win, target, start, ctr, work].                                   *)
(***************************************************************************)
EXTENDS BigNum, FiniteSets

CONSTANTS EpochLen,     \* blocks per epoch
          Window,       \* number of times the median is taken of (odd)
          RadixBits,    \* the exponent of a compact difficulty counts digits of this many bits
          Off,          \* a mantissa has Off such digits
          ExpLimit,     \* exponents from here on are refused
          MaxTarget,    \* the largest target (a BigNum)
          MinSpan, Period, MaxSpan,   \* seconds per epoch: least, intended, most (BigNum)
          TimeBits      \* times are below 2^TimeBits

SignMant == Pow2(RadixBits * Off - 1)         \* mantissas from here on are negative
NormMant == Pow2(RadixBits * (Off - 1) - 1)   \* mantissas from here on are normalised

(* ------------------------------------------------ compact difficulty *)
Whole(h) == h.exp >= Off \/ Low(h.mant, RadixBits * (Off - h.exp)) = Zero
Decodable(h) == ~h.neg /\ h.exp < ExpLimit /\ Whole(h)
Target(h) == IF h.exp >= Off THEN Shl(h.mant, RadixBits * (h.exp - Off))
                             ELSE Shr(h.mant, RadixBits * (Off - h.exp))
(* the compact form of a number: the one with a normalised mantissa *)
Compact(t) ==
  LET n0 == (BitLen(t) + RadixBits - 1) \div RadixBits
      m0 == IF n0 >= Off THEN Shr(t, RadixBits * (n0 - Off)) ELSE Shl(t, RadixBits * (Off - n0))
  IN IF Le(SignMant, m0) THEN [exp |-> n0 + 1, mant |-> Shr(m0, RadixBits)]
                         ELSE [exp |-> n0, mant |-> m0]
Canonical(h) == Compact(Target(h)) = [exp |-> h.exp, mant |-> h.mant]
(* what the compact form keeps of a number *)
Kept(t) == LET c == Compact(t) IN Target([exp |-> c.exp, mant |-> c.mant])

(* ----------------------------------------------------------- median *)
Median(w) ==
  CHOOSE x \in {w[i] : i \in 1..Window} :
    LET below == Cardinality({i \in 1..Window : Lt(w[i], x)})
        upto  == Cardinality({i \in 1..Window : Le(w[i], x)})
    IN below <= Window \div 2 /\ upto > Window \div 2

(* --------------------------------------------------------- retarget *)
Span(start, last) ==
  IF Lt(last, Add(start, MinSpan)) THEN MinSpan      \* also if the epoch ended before it began
  ELSE IF Lt(Add(start, MaxSpan), last) THEN MaxSpan
  ELSE Sub(last, start)
Scaled(old, span) == MinN(MaxTarget, Div(Mul(old, span), Period))
Expected(st) == IF st.ctr = Zero
                THEN Kept(Scaled(st.target, Span(st.start, st.win[Window])))
                ELSE st.target

(* ------------------------------------------------------- the rules *)
PrevOk(st, h)  == h.prev = st.tip
BitsOk(h)      == Decodable(h)
PowOk(h)       == Le(h.hash, Target(h))
TimeOk(st, h)  == Lt(Median(st.win), h.time)
CapOk(h)       == Le(Target(h), MaxTarget)
SchedOk(st, h) == Target(h) = Expected(st)
Valid(st, h) == PrevOk(st, h) /\ BitsOk(h) /\ PowOk(h) /\ TimeOk(st, h) /\ CapOk(h) /\ SchedOk(st, h)

BlockWork(t) == IF t = Zero THEN Zero ELSE Div(MaxTarget, t)
NextWin(st, h) == [i \in 1..Window |-> IF i < Window THEN st.win[i + 1] ELSE h.time]
NextStart(st, h) == IF st.ctr = Zero THEN h.time ELSE st.start
NextCtr(st) == LET c == Add(st.ctr, One) IN IF c = EpochLen THEN Zero ELSE c
NextWork(st, h) == Add(st.work, BlockWork(Target(h)))
Apply(st, h) == [tip |-> h.hash, win |-> NextWin(st, h), target |-> Target(h), start |-> NextStart(st, h),
                 ctr |-> NextCtr(st), work |-> NextWork(st, h)]

(* states the rules are about *)
IsTime(t) == Lt(t, Pow2(TimeBits))
WellFormed(st) == /\ \A i \in 1..Window : IsTime(st.win[i])
                  /\ IsTime(st.start) /\ Lt(st.ctr, EpochLen) /\ Le(st.target, MaxTarget)
=============================================================================

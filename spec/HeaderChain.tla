---------------------------- MODULE HeaderChain -----------------------------
(***************************************************************************)
(* Chains of headers: starting from some state, any header the rules admit *)
(* is appended.  TLC explores all chains for small constants and checks    *)
(* that the state carried from step to step means what a user reads out of *)
(* it, in terms of the whole history.                                      *)
(***************************************************************************)
EXTENDS HeaderRules, SequencesExt

CONSTANTS MaxLen,       \* longest chain explored
          Times,        \* times a block may carry
          Hashes,       \* hashes a block may have
          Exps, Mants,  \* compact difficulties a block may carry
          Ctr0          \* counters a chain may start from

VARIABLES st,           \* the carried state
          hist,         \* headers accepted so far
          init          \* the state the chain started from
vars == <<st, hist, init>>

B(n) == FromInt(n)
InitStates ==
  [tip : {Zero}, win : {[i \in 1..Window |-> B(10 + i)], [i \in 1..Window |-> B(14 - i)], [i \in 1..Window |-> B(12)]},
   target : {t \in {Target([exp |-> e, mant |-> B(m)]) : e \in Exps, m \in Mants} : t # Zero /\ Le(t, MaxTarget)},
   start : {B(8), B(13)}, ctr : {B(c) : c \in Ctr0}, work : {Zero, B(5)}]
Headers ==
  [prev : {B(x) : x \in Hashes \cup {0}}, time : {B(x) : x \in Times}, exp : Exps, mant : {B(m) : m \in Mants},
   neg : {FALSE}, hash : {B(x) : x \in Hashes}]

Init == /\ st \in InitStates
        /\ init = st
        /\ hist = << >>
Append1(h) == /\ Len(hist) < MaxLen
              /\ Valid(st, h)
              /\ st' = Apply(st, h)
              /\ hist' = Append(hist, h)
              /\ UNCHANGED init
Next == \E h \in Headers : Append1(h)
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------- over histories *)
N == Len(hist)
TimesSoFar == init.win \o [i \in 1..N |-> hist[i].time]      \* oldest first
TipAt(i) == IF i = 0 THEN init.tip ELSE hist[i].hash
TargetAt(i) == IF i = 0 THEN init.target ELSE Target(hist[i])
C0 == ToInt(init.ctr)
E  == ToInt(EpochLen)
IsEpochStart(i) == (C0 + i - 1) % E = 0                       \* block i (1 is the first appended)

TypeOK == WellFormed(st)
(* every block extends the one before it and the tip is the last one *)
Linked == /\ \A i \in 1..N : hist[i].prev = TipAt(i - 1)
          /\ st.tip = TipAt(N)
(* every block carries its work *)
Worked == \A i \in 1..N : Decodable(hist[i]) /\ Le(hist[i].hash, Target(hist[i]))
(* the carried window is the last Window times, and every block is later than their median *)
WindowIsHistory == st.win = SubSeq(TimesSoFar, N + 1, N + Window)
Later == \A i \in 1..N : Lt(Median(SubSeq(TimesSoFar, i, i + Window - 1)), hist[i].time)
(* the median never goes back *)
MedianMonotone == \A i \in 1..N : Le(Median(SubSeq(TimesSoFar, i, i + Window - 1)),
                                     Median(SubSeq(TimesSoFar, i + 1, i + Window)))
(* the counter is the height modulo the epoch length *)
CounterIsHeight == st.ctr = B((C0 + N) % E)
(* the epoch start is the time of the last block at which an epoch began *)
StartIsFirstOfEpoch ==
  LET firsts == {i \in 1..N : IsEpochStart(i)}
  IN st.start = IF firsts = {} THEN init.start
                ELSE hist[CHOOSE i \in firsts : \A j \in firsts : j <= i].time
(* targets change only where an epoch begins, and then by at most the limits *)
SameTargetInEpoch == \A i \in 1..N : IsEpochStart(i) \/ TargetAt(i) = TargetAt(i - 1)
TargetCapped == \A i \in 1..N : Le(TargetAt(i), MaxTarget)
TargetBounded ==
  \A i \in 1..N :
    /\ Le(Mul(TargetAt(i), Period), Mul(TargetAt(i - 1), MaxSpan))
    /\ LET low == Kept(MinN(MaxTarget, Div(Mul(TargetAt(i - 1), MinSpan), Period)))
       IN Le(low, TargetAt(i))
(* work is the sum of the quotients, never decreasing *)
RECURSIVE WorkSum(_)
WorkSum(i) == IF i = 0 THEN init.work ELSE Add(WorkSum(i - 1), Div(MaxTarget, TargetAt(i)))
WorkIsSum == (\A i \in 1..N : TargetAt(i) # Zero) => st.work = WorkSum(N)
WorkPositive == \A i \in 1..N : Le(One, BlockWork(TargetAt(i))) \/ TargetAt(i) = Zero
(* the compact form: unique, rounding down, keeps all but the lowest part of a number *)
CompactLaws ==
  \A i \in 0..N :
    LET t == TargetAt(i)
        k == Kept(t)
    IN /\ Le(k, t) /\ Kept(k) = k
       /\ t # Zero => Le(NormMant, Compact(t).mant) /\ Lt(Compact(t).mant, SignMant)
       /\ Lt(Mul(Sub(t, k), NormMant), MaxN(t, One))
(* what the chain looks like at the end depends on the accepted headers only *)
Replay == st = FoldLeft(LAMBDA s, h : Apply(s, h), init, hist)
=============================================================================

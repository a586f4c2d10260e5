----------------------------- MODULE HeaderGen ------------------------------
(***************************************************************************)
(* Generates the cases that are replayed into the real step circuit: for   *)
(* a header with real work, states from classes that the rules tell apart. *)
(* A plan says, for every dimension, which class the state is in.  The     *)
(* base plan makes the header valid; every other plan departs from it.     *)
(***************************************************************************)
EXTENDS HeaderStart, Json, IOUtils, SequencesExt

Fix == ndJsonDeserialize(IOEnv.FIXTURES)      \* [name, bytes]
Focus == IOEnv.FOCUS                          \* the property the cases are for
NOwn  == atoi(IOEnv.NOWN)
NSome == atoi(IOEnv.NSOME)
NRandom == atoi(IOEnv.NRANDOM)
NFlips  == atoi(IOEnv.NFLIPS)

Parsed == TLCEval([i \in 1..Len(Fix) |-> ParseHeader(Fix[i].bytes)])

(* --------------------------------------------------------- dimensions *)
MaxTime == Sub(Pow2(32), One)
Up(x, k) == MinN(Add(x, k), MaxTime)
Dn(x, k) == IF Le(k, x) THEN Sub(x, k) ELSE Zero
I(n) == FromInt(n)

TipCs == {"match", "inc", "dec", "zero", "bit0", "bit100", "bit200", "bit231", "bit252", "own", "rev", "q1", "q2", "q3"}
MedCs == {"tight", "equal", "late", "low", "zero", "max", "half", "later", "byte"}
ArrCs == {"asc", "desc", "rot", "equal", "ties", "low6", "high6", "extreme0", "extreme1", "close", "wide", "swap"}
CtrCs == {0, 1, 2, 255, 1007, 2014, 2015}
TgtCs == {"same", "inc", "dec", "half", "double", "max", "zero", "unitup", "unitdn"}
GoalCs == {"exact", "below", "top", "over", "cap"}
SpanCs == {"neg", "minus1", "zero", "one", "min-1", "min", "min+1", "mid", "per-1", "per", "per+1", "max-1", "max", "max+1", "huge"}
StartCs == {"past", "zero", "last", "ahead", "max"}
WorkCs == {"zero", "one", "w64", "w128", "w200", "w240"}

Plain == [tip |-> "match", med |-> "tight", arr |-> "asc", ctr |-> 5, tgt |-> "same", goal |-> "exact", span |-> "per",
         start |-> "past", work |-> "one"]
Epoch0 == [Plain EXCEPT !.ctr = 0]

Q1 == BytesBE(<<64>> \o [i \in 1..15 |-> 0] \o <<34, 70, 152, 252, 9, 148, 168, 221, 140, 70, 235, 33, 0, 0, 0, 1>>)
Q2 == BytesBE(<<64>> \o [i \in 1..15 |-> 0] \o <<34, 70, 152, 252, 9, 76, 249, 27, 153, 45, 48, 237, 0, 0, 0, 1>>)
Flip(x, k) == IF BitAt(x, k) = 1 THEN Sub(x, Pow2(k)) ELSE Add(x, Pow2(k))
RevBytes(b) == BytesBE(SubSeq(b, 5, 36))

Tip(i, c) ==
  LET p == Parsed[i].prev
  IN CASE c = "match" -> p [] c = "inc" -> Add(p, One) [] c = "dec" -> Dn(p, One) [] c = "zero" -> Zero
       [] c = "bit0" -> Flip(p, 0) [] c = "bit100" -> Flip(p, 100) [] c = "bit200" -> Flip(p, 200) [] c = "bit231" -> Flip(p, 231)
       [] c = "bit252" -> Flip(p, 252) [] c = "own" -> Parsed[i].hash [] c = "rev" -> Low(RevBytes(Fix[i].bytes), 250)
       [] c = "q1" -> Dn(p, Q1) [] c = "q2" -> Dn(p, Q2) [] OTHER -> Shr(p, 8)

Med(i, c) ==
  LET t == Parsed[i].time
  IN CASE c = "tight" -> Dn(t, One) [] c = "equal" -> t [] c = "late" -> Up(t, One) [] c = "low" -> Dn(t, I(4000))
       [] c = "zero" -> Zero [] c = "max" -> MaxTime [] c = "half" -> Dn(t, Pow2(31)) [] c = "later" -> Up(t, Pow2(31))
       [] OTHER -> Flip(t, 24)

Win(m, c) ==
  LET asc == [k \in 1..11 |-> IF k < 6 THEN Dn(m, I((6 - k) * 600)) ELSE Up(m, I((k - 6) * 600))]
      d(k) == Dn(m, I(k))
      u(k) == Up(m, I(k))
  IN CASE c = "asc" -> asc
       [] c = "desc" -> [k \in 1..11 |-> asc[12 - k]]
       [] c = "rot" -> [k \in 1..11 |-> asc[((k + 3) % 11) + 1]]
       [] c = "swap" -> [asc EXCEPT ![6] = asc[11], ![11] = asc[6]]
       [] c = "equal" -> [k \in 1..11 |-> m]
       [] c = "ties" -> <<d(1), m, m, d(1), m, u(1), m, d(1), m, u(1), u(1)>>
       [] c = "low6" -> <<m, u(5), m, u(4), m, u(3), m, u(2), m, u(1), m>>
       [] c = "high6" -> <<m, d(5), m, d(4), m, d(3), m, d(2), m, d(1), m>>
       [] c = "extreme0" -> <<MaxTime, Zero, MaxTime, Zero, m, MaxTime, Zero, MaxTime, Zero, MaxTime, Zero>>
       [] c = "extreme1" -> <<Zero, MaxTime, Zero, MaxTime, m, Zero, MaxTime, Zero, MaxTime, Zero, MaxTime>>
       [] c = "close" -> <<u(1), d(1), u(1), d(1), u(1), d(1), u(1), d(1), u(1), d(1), m>>
       [] OTHER -> <<Dn(m, Pow2(31)), Up(m, Pow2(24)), d(256), u(256), Dn(m, Pow2(16)), Up(m, Pow2(31)), m, Dn(m, Pow2(24)), d(65535), Up(m, Pow2(16)), u(255)>>

Unit(i) == LET e == Parsed[i].exp IN IF e >= 3 /\ e < 32 THEN Pow2(8 * (e - 3)) ELSE One

(* signed span <<negative, magnitude>> *)
SpanOf(c) ==
  CASE c = "neg" -> <<TRUE, I(700000)>> [] c = "minus1" -> <<TRUE, One>> [] c = "zero" -> <<FALSE, Zero>> [] c = "one" -> <<FALSE, One>>
    [] c = "min-1" -> <<FALSE, I(302399)>> [] c = "min" -> <<FALSE, I(302400)>> [] c = "min+1" -> <<FALSE, I(302401)>>
    [] c = "mid" -> <<FALSE, I(777777)>> [] c = "per-1" -> <<FALSE, I(1209599)>> [] c = "per" -> <<FALSE, I(1209600)>>
    [] c = "per+1" -> <<FALSE, I(1209601)>> [] c = "max-1" -> <<FALSE, I(4838399)>> [] c = "max" -> <<FALSE, I(4838400)>>
    [] c = "max+1" -> <<FALSE, I(4838401)>> [] OTHER -> <<FALSE, I(1000000000)>>

CeilDiv(a, b) == Div(Add(a, Sub(b, One)), b)
(* the old target for which the new one lies where the goal says *)
OldFor(i, goal, start, last) ==
  LET t == Target(Parsed[i])
      s == Span(start, last)
      up(g) == CeilDiv(Mul(g, Period), s)                                  \* least old target that gives at least g
      dn(g) == Div(Dn(Mul(Add(g, One), Period), One), s)                   \* greatest one that gives at most g
      top == Dn(Add(t, Unit(i)), One)
  IN CASE goal = "exact" -> up(t) [] goal = "below" -> Dn(up(t), One) [] goal = "top" -> dn(top)
       [] goal = "over" -> Add(dn(top), One) [] OTHER -> MaxTarget

Tgt(i, c) ==
  LET t == Target(Parsed[i])
  IN CASE c = "same" -> t [] c = "inc" -> Add(t, One) [] c = "dec" -> Dn(t, One) [] c = "half" -> Shr(t, 1) [] c = "double" -> Shl(t, 1)
       [] c = "max" -> MaxTarget [] c = "zero" -> Zero [] c = "unitup" -> Add(t, Unit(i)) [] OTHER -> Dn(t, Unit(i))

Work(c) == CASE c = "zero" -> Zero [] c = "one" -> One [] c = "w64" -> Sub(Pow2(64), One) [] c = "w128" -> Sub(Pow2(128), One)
             [] c = "w200" -> Sub(Pow2(200), One) [] OTHER -> Sub(Pow2(240), One)

State(i, d) ==
  LET w == Win(Med(i, d.med), d.arr)
      last == w[11]
      s == SpanOf(d.span)
      start0 == IF s[1] THEN Add(last, s[2]) ELSE Dn(last, s[2])
      start == IF d.ctr = 0 THEN start0
               ELSE CASE d.start = "past" -> Dn(last, I(100000)) [] d.start = "zero" -> Zero [] d.start = "last" -> last
                      [] d.start = "ahead" -> Up(last, I(5)) [] OTHER -> MaxTime
      possible == d.ctr # 0 \/ s[1] \/ Le(s[2], last)
  IN [ok |-> possible,
      st |-> [tip |-> Tip(i, d.tip), win |-> w,
              target |-> IF d.ctr = 0 THEN OldFor(i, d.goal, start, last) ELSE Tgt(i, d.tgt),
              start |-> start, ctr |-> I(d.ctr), work |-> Work(d.work)]]

Good(i, d) == LET x == State(i, d) IN x.ok /\ WellFormed(x.st)
CaseOf(i, d, b, kind) == [name |-> Fix[i].name, kind |-> kind, hdr |-> b, z |-> ToZ(State(i, d).st), plan |-> d,
                          valid |-> Valid(State(i, d).st, Parsed[i]) /\ b = Fix[i].bytes]

(* ------------------------------------------------------------- plans *)
H == 1..Len(Fix)
Own ==       \* the plans that matter most for a property
  CASE Focus = "C01" -> {[Plain EXCEPT !.tip = c] : c \in TipCs}
    [] Focus = "C02" -> {[Plain EXCEPT !.tgt = c] : c \in TgtCs} \cup {Epoch0, [Epoch0 EXCEPT !.goal = "below"], [Epoch0 EXCEPT !.goal = "cap"]}
    [] Focus = "C03" -> {[Plain EXCEPT !.med = c, !.arr = a] : c \in MedCs, a \in ArrCs}
    [] Focus = "C04" -> {[Plain EXCEPT !.tgt = c, !.ctr = k] : c \in TgtCs, k \in {1, 2015}}
                        \cup {[Epoch0 EXCEPT !.goal = g, !.span = s] : g \in GoalCs, s \in SpanCs}
    [] Focus = "C05" -> {[Plain EXCEPT !.ctr = k, !.start = s] : k \in CtrCs, s \in StartCs} \cup {[Epoch0 EXCEPT !.span = s] : s \in SpanCs}
    [] Focus = "C06" -> {[Plain EXCEPT !.work = w] : w \in WorkCs} \cup {[Epoch0 EXCEPT !.work = w] : w \in WorkCs}
    [] OTHER -> {}
Some ==      \* one departure in any dimension
  {[Plain EXCEPT !.tip = c] : c \in TipCs} \cup {[Plain EXCEPT !.med = c] : c \in MedCs} \cup {[Plain EXCEPT !.arr = c] : c \in ArrCs}
  \cup {[Plain EXCEPT !.ctr = c] : c \in CtrCs} \cup {[Plain EXCEPT !.tgt = c] : c \in TgtCs} \cup {[Plain EXCEPT !.start = c] : c \in StartCs}
  \cup {[Plain EXCEPT !.work = c] : c \in WorkCs} \cup {[Epoch0 EXCEPT !.goal = c] : c \in GoalCs} \cup {[Epoch0 EXCEPT !.span = c] : c \in SpanCs}

(* valid in every dimension, drawn at random *)
Pick(S) == RandomElement(S)
RandomValid(k) ==
  [tip |-> "match", med |-> Pick({"tight", "low", "zero", "half"}), arr |-> Pick(ArrCs), ctr |-> Pick({0, 0, 0} \cup CtrCs \cup {k % 2016}),
   tgt |-> "same", goal |-> Pick({"exact", "top", "cap"}), span |-> Pick(SpanCs), start |-> Pick(StartCs), work |-> Pick(WorkCs)]
RandomAny(k) ==
  LET v == RandomValid(k)
      d == Pick(1..5)
  IN CASE d = 1 -> [v EXCEPT !.tip = Pick(TipCs)] [] d = 2 -> [v EXCEPT !.med = Pick(MedCs)] [] d = 3 -> [v EXCEPT !.tgt = Pick(TgtCs)]
       [] d = 4 -> [v EXCEPT !.goal = Pick(GoalCs)] [] OTHER -> [v EXCEPT !.tip = Pick(TipCs), !.med = Pick(MedCs), !.tgt = Pick(TgtCs), !.goal = Pick(GoalCs)]

FlipBit(b, k) == LET p == ((k - 1) \div 8) + 1
                     w == 2 ^ ((k - 1) % 8)
                 IN [b EXCEPT ![p] = IF (b[p] \div w) % 2 = 1 THEN b[p] - w ELSE b[p] + w]

Mk(i, d, kind) == IF Good(i, d) THEN <<CaseOf(i, d, Fix[i].bytes, kind)>> ELSE << >>
Cat(S) == FoldSet(LAMBDA x, acc : x \o acc, << >>, S)
CatS(s) == FoldLeft(LAMBDA acc, x : acc \o x, << >>, s)

BaseCases == CatS([i \in H |-> Mk(i, Plain, "base") \o Mk(i, Epoch0, "base") \o Mk(i, [Epoch0 EXCEPT !.goal = "cap"], "base")])
(* every plan of a set, for so many headers drawn at random *)
Spread(S, n, kind) == LET q == SetToSeq(S)
                      IN CatS([j \in 1..(n * Len(q)) |-> Mk(Pick(H), q[((j - 1) % Len(q)) + 1], kind)])
OwnCases  == Spread(Own, NOwn, "own")
SomeCases == Spread(Some, NSome, "some")
RandCases == CatS([k \in 1..NRandom |-> LET i == Pick(H) IN Mk(i, IF k % 3 = 0 THEN RandomAny(k) ELSE RandomValid(k), "random")])
FlipCases == [k \in 1..NFlips |->
                LET i == Pick(H)
                    b == FlipBit(Fix[i].bytes, ((k - 1) % 80) * 8 + Pick(1..8))
                    d == IF k % 2 = 0 THEN Plain ELSE Epoch0
                    s == State(i, IF Good(i, d) THEN d ELSE Plain).st
                IN [name |-> Fix[i].name, kind |-> "flip", hdr |-> b, plan |-> d, valid |-> FALSE,
                    \* the state follows the changed header as far as a state can
                    z |-> ToZ([s EXCEPT !.tip = Low(BytesLE(SubSeq(b, 5, 36)), 250)])]]

(* ------------------------------------------------------------ chains *)
Idx(n) == CHOOSE i \in H : Fix[i].name = n
A(i) == "A" \o (IF i < 10 THEN "0" \o ToString(i) ELSE ToString(i))
AA(lo, hi) == [k \in 1..(hi - lo + 1) |-> A(lo + k - 1)]
(* a chain starts so that an epoch, if one begins within it, ended the given time after it began *)
Chain(names, ctr, span, arr, work) ==
  LET ids == [k \in 1..Len(names) |-> Idx(names[k])]
      b == 2016 - ctr
      s == State(ids[1], [Plain EXCEPT !.ctr = 1, !.med = "low", !.arr = arr, !.work = work]).st
      last == IF b <= Len(names) THEN Parsed[ids[b]].time ELSE Parsed[ids[1]].time
      start == Dn(last, I(span))
  IN [kind |-> "chain", hdrs |-> [k \in 1..Len(names) |-> Fix[ids[k]].bytes], name |-> names[1],
      z |-> ToZ([s EXCEPT !.ctr = I(ctr), !.start = start]), plan |-> [ctr |-> ctr, span |-> span, arr |-> arr],
      valid |-> FALSE]
R03 == <<"R0", "R1", "R2", "R3">>
ChainCases ==
  << Chain(AA(0, 15), 2010, 900000, "asc", "zero"), Chain(AA(0, 15), 2010, 900001, "rot", "w64"), Chain(AA(0, 15), 2010, 899990, "ties", "zero"),
     Chain(AA(0, 15), 2010, 1209600, "asc", "zero"), Chain(AA(0, 5), 2013, 1209600, "desc", "zero"), Chain(AA(0, 5), 2013, 5000000, "ties", "one"),
     Chain(AA(0, 5), 2012, 1209599, "asc", "zero"), Chain(AA(0, 5), 2015, 1300000, "swap", "zero"), Chain(AA(6, 15), 2012, 1209600, "extreme0", "zero"),
     Chain(AA(6, 15), 2009, 1209600, "rot", "w128"), Chain(AA(7, 15), 1000, 1, "desc", "zero"), Chain(R03, 2014, 1209600, "asc", "zero"),
     Chain(R03, 2013, 1300000, "ties", "w200"), Chain(R03, 100, 77, "rot", "zero"), Chain(<<"R100000", "R100001">>, 2015, 1209600, "asc", "zero"),
     Chain(<<"R100000", "R100001">>, 480, 1209600, "rot", "w64"), Chain(<<A(0), A(1), A(3)>>, 7, 0, "asc", "zero"),
     Chain(<<A(0), A(1), A(0)>>, 7, 0, "asc", "zero"), Chain(<<A(2), A(2)>>, 7, 0, "asc", "zero"), Chain(<<A(0), A(1), A(1)>>, 2014, 1300000, "asc", "zero") >>

(* -------------------------------------------------- what is set up *)
RECURSIVE Lists(_, _)
Lists(S, n) == IF n = 0 THEN << << >> >>
               ELSE LET q == SetToSeq(S)
                        r == Lists(S, n - 1)
                    IN r \o CatS([k \in 1..Len(q) |-> CatS([j \in 1..Len(r) |-> IF Len(r[j]) = n - 1 THEN <<Append(r[j], q[k])>> ELSE << >>])])
Listing(l) == [kind |-> "list", name |-> "list", plan |-> [n |-> Len(l)], valid |-> FALSE, hdrs |-> [k \in 1..Len(l) |-> Fix[l[k]].bytes],
               zs |-> [k \in 1..Len(l) |-> ToZ(State(l[k], [Plain EXCEPT !.ctr = 1 + (k % 2000)]).st)]]
ListCases ==
  LET few == {Idx("R0"), Idx("R123456"), Idx("A00")}
      ls == Lists(few, 3) \o [k \in 1..NRandom |-> [j \in 1..(k % 9) |-> Pick(H)]]
  IN [k \in 1..Len(ls) |-> Listing(ls[k])]
(* the chain that starts where folding starts *)
StartCase == [kind |-> "chain", hdrs |-> <<Fix[Idx("R123456")].bytes>>, name |-> "R123456", plan |-> [start |-> Height], valid |-> TRUE,
              z |-> ToZ(Start(Parsed[Idx("R123456")]))]
NovaCases ==
  << StartCase, Chain(AA(0, 5), 2013, 1209600, "desc", "zero"), Chain(R03, 2014, 1209600, "asc", "w200"),
     Chain(<<A(0), A(1), A(3)>>, 7, 0, "asc", "zero"), Chain(<<A(2), A(2)>>, 7, 0, "asc", "zero"), Chain(<<A(0), A(1), A(0)>>, 2014, 5000000, "ties", "one") >>
  \o (IF NOwn < 2 THEN << >>
      ELSE << Chain(AA(0, 15), 2010, 899990, "ties", "zero"), Chain(AA(6, 15), 2012, 1209600, "extreme0", "zero"),
              Chain(AA(6, 15), 2009, 1209600, "rot", "w128"), Chain(<<"R100000", "R100001">>, 2015, 1209600, "asc", "zero"),
              Chain(AA(0, 5), 2013, 5000000, "ties", "one"), Chain(AA(0, 15), 2010, 900001, "rot", "w64") >>)
Cases == CASE Focus = "C24" -> ListCases [] Focus = "C25" -> NovaCases
           [] OTHER -> BaseCases \o OwnCases \o SomeCases \o RandCases \o FlipCases \o ChainCases

VARIABLE done
Init == done = 0
Next == /\ done = 0
        /\ done' = 1
        /\ ndJsonSerialize(IOEnv.OUT, Cases)
Spec == Init /\ [][Next]_done
=============================================================================

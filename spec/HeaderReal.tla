----------------------------- MODULE HeaderReal -----------------------------
(* The rules with the constants of the real network, and real headers. *)
EXTENDS HeaderRules, Sha256, TLC

rEpochLen  == FromInt(2016)
rMaxTarget == Shl(FromInt(65535), 208)
rPeriod    == FromInt(1209600)
rMinSpan   == FromInt(302400)
rMaxSpan   == FromInt(4838400)

(* the 80 bytes of a header *)
ParseHeader(b) == [prev |-> BytesLE(SubSeq(b, 5, 36)),
                   time |-> BytesLE(SubSeq(b, 69, 72)),
                   exp  |-> b[76],
                   mant |-> BytesLE(<<b[73], b[74], b[75] % 128>>),
                   neg  |-> b[75] >= 128,
                   hash |-> BytesLE(Sha256d(b))]

(* the 16 numbers the circuit carries *)
FromZ(z) == [tip |-> z[1], win |-> [i \in 1..11 |-> z[i + 1]], target |-> z[13], start |-> z[14], ctr |-> z[15], work |-> z[16]]
ToZ(s) == <<s.tip>> \o s.win \o <<s.target, s.start, s.ctr, s.work>>
=============================================================================

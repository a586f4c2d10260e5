------------------------------- MODULE Sha256 -------------------------------
(***************************************************************************)
(* SHA-256 (FIPS 180-4) over sequences of bytes.  A 32-bit word is a pair  *)
(* <<high half, low half>>, because TLC integers are 32-bit and signed.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise

LOCAL H16 == 65536
(* operators on words *)
W(h, l) == <<h, l>>
Plus(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + l \div H16) % H16, l % H16>>
Sum4(a, b, c, d) == LET l == a[2] + b[2] + c[2] + d[2]
                    IN <<(a[1] + b[1] + c[1] + d[1] + l \div H16) % H16, l % H16>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WNot(a) == <<65535 - a[1], 65535 - a[2]>>
LOCAL P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
LOCAL Pw(n) == P2[n + 1]
ShrW(a, n) ==
  IF n >= 16 THEN <<0, a[1] \div Pw(n - 16)>>
  ELSE <<a[1] \div Pw(n), (a[1] % Pw(n)) * Pw(16 - n) + a[2] \div Pw(n)>>
Rotr(a, n) ==
  IF n >= 16 THEN LET b == <<a[2], a[1]>> IN
       IF n = 16 THEN b
       ELSE LET m == n - 16 IN
            <<(b[2] % Pw(m)) * Pw(16 - m) + b[1] \div Pw(m), (b[1] % Pw(m)) * Pw(16 - m) + b[2] \div Pw(m)>>
  ELSE <<(a[2] % Pw(n)) * Pw(16 - n) + a[1] \div Pw(n), (a[1] % Pw(n)) * Pw(16 - n) + a[2] \div Pw(n)>>

Ch(x, y, z) == WXor(WAnd(x, y), WAnd(WNot(x), z))
Maj(x, y, z) == WXor(WXor(WAnd(x, y), WAnd(x, z)), WAnd(y, z))
BSig0(x) == WXor(WXor(Rotr(x, 2), Rotr(x, 13)), Rotr(x, 22))
BSig1(x) == WXor(WXor(Rotr(x, 6), Rotr(x, 11)), Rotr(x, 25))
SSig0(x) == WXor(WXor(Rotr(x, 7), Rotr(x, 18)), ShrW(x, 3))
SSig1(x) == WXor(WXor(Rotr(x, 17), Rotr(x, 19)), ShrW(x, 10))

K == <<<<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>, <<14678, 49755>>, <<23025, 4593>>,
        <<37439, 33444>>, <<43804, 24277>>, <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772, 32195>>,
        <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>, <<58523, 27073>>, <<61374, 18310>>,
        <<4033, 40390>>, <<9228, 41420>>, <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>,
        <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>, <<50912, 3059>>, <<54695, 37191>>,
        <<1738, 25425>>, <<5161, 10599>>, <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>,
        <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>, <<41663, 59553>>, <<43034, 26187>>,
        <<49739, 35696>>, <<51052, 20899>>, <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>,
        <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>, <<14620, 3251>>, <<20184, 43594>>,
        <<23452, 51791>>, <<26670, 28659>>, <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>,
        <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>>>>

H0 == <<<<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>, <<20750, 21119>>, <<39685, 26764>>,
        <<8067, 55723>>, <<23520, 52505>>>>

(* the padded message, as words *)
Padded(bytes) ==
  LET n == Len(bytes)
      z == (119 - (n % 64)) % 64
      bits == n * 8
  IN bytes \o <<128>> \o [i \in 1..z |-> 0]
       \o <<0, 0, 0, 0, 0, (bits \div H16) % 256, (bits \div 256) % 256, bits % 256>>
Words(bytes) == [i \in 1..(Len(bytes) \div 4) |->
                   <<bytes[4 * i - 3] * 256 + bytes[4 * i - 2], bytes[4 * i - 1] * 256 + bytes[4 * i]>>]
Upto(n) == [i \in 1..n |-> i]

Schedule(m) ==
  FoldLeft(LAMBDA w, i : Append(w, Sum4(SSig1(w[i + 14]), w[i + 9], SSig0(w[i + 1]), w[i])), m, Upto(48))
Round(w, s, i) ==
  LET t1 == Plus(Sum4(s[8], BSig1(s[5]), Ch(s[5], s[6], s[7]), K[i]), w[i])
      t2 == Plus(BSig0(s[1]), Maj(s[1], s[2], s[3]))
  IN <<Plus(t1, t2), s[1], s[2], s[3], Plus(s[4], t1), s[5], s[6], s[7]>>
Compress(h, m) ==
  LET w == Schedule(m)
      s == FoldLeft(LAMBDA x, i : Round(w, x, i), h, Upto(64))
  IN [i \in 1..8 |-> Plus(h[i], s[i])]

Sha256(bytes) ==
  LET ws == Words(Padded(bytes))
      h == FoldLeft(LAMBDA x, b : Compress(x, SubSeq(ws, 16 * b - 15, 16 * b)), H0, Upto(Len(ws) \div 16))
  IN [i \in 1..32 |->
        LET x == h[(i + 3) \div 4]
        IN CASE i % 4 = 1 -> x[1] \div 256
             [] i % 4 = 2 -> x[1] % 256
             [] i % 4 = 3 -> x[2] \div 256
             [] OTHER -> x[2] % 256]
Sha256d(bytes) == Sha256(Sha256(bytes))
=============================================================================

----------------------------- MODULE Sha256Test -----------------------------
(* The override of Sha256d means what the TLA+ text (module Sha256Plain is a copy of it) says. *)
EXTENDS Sha256, TLC, FiniteSetsExt
P == INSTANCE Sha256Plain
VARIABLES n, m
Init == n = 0 /\ m = << >>
Next == /\ n < 16 /\ n' = n + 1
        /\ m' = [i \in 1..(CASE n % 4 = 0 -> 80 [] n % 4 = 1 -> RandomElement(0..150) [] n % 4 = 2 -> 55 + (n \div 4) [] OTHER -> 32) |-> RandomElement(0..255)]
Spec == Init /\ [][Next]_<<n, m>>
Same == Sha256d(m) = P!Sha256d(m)
(* FIPS 180-4 example *)
Known == P!Sha256(<<97, 98, 99>>) = <<186, 120, 22, 191, 143, 1, 207, 234, 65, 65, 64, 222, 93, 174, 34, 35,
                                       176, 3, 97, 163, 150, 23, 122, 156, 180, 16, 255, 97, 242, 0, 21, 173>>
=============================================================================

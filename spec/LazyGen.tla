------------------------------ MODULE LazyGen -------------------------------
(* Every history of Lazy of full length, written out to be replayed.        *)
EXTENDS Lazy, Json, IOUtils
Done == Len(seen) = Depth => PrintT(<<"HIST", [i \in 1..Len(seen) |-> <<seen[i][1], seen[i][2]>>]>>)
=============================================================================

----------------------------- MODULE LazyTrace ------------------------------
(* Recorded histories of the real lazy cell are behaviours of Lazy.         *)
EXTENDS Lazy, Json, IOUtils, TLCExt
Raw == ndJsonDeserialize(IOEnv.TRACE)       \* [a: actions, h: handles, c: runs so far, v: values]
M == Len(Raw)
VARIABLES run, bad
tvars == <<made, live, forced, looks, calls, seen, run, bad>>
TInit == Init /\ run \in 1..M /\ bad = FALSE
E == Raw[run]
Here == ~bad /\ Len(seen) < Len(E.a)
At == Len(seen) + 1
Step == \/ E.a[At] \in {"lazy", "value", "fails"} /\ Make(E.a[At])
        \/ E.a[At] = "clone" /\ Clone(E.h[At])
        \/ E.a[At] = "drop" /\ Drop(E.h[At])
        \/ E.a[At] = "look" /\ Look(E.h[At])
        \/ E.a[At] = "glance" /\ (Glance(E.h[At]) \/ Fail(E.h[At]))
        \/ E.a[At] = "away" /\ Away
Agree(s) == s[At] = <<E.a[At], E.h[At], E.c[At], E.v[At]>>
TNext == \/ Here /\ Step /\ Agree(seen') /\ UNCHANGED <<run, bad>>
         \/ /\ Here /\ ~ENABLED (Step /\ Agree(seen'))
            /\ bad' = TRUE
            /\ PrintT(<<"BAD", run, At>>)
            /\ UNCHANGED <<made, live, forced, looks, calls, seen, run>>
TSpec == TInit /\ [][TNext]_tvars
Follows == ~bad
=============================================================================

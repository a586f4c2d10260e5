----------------------------- MODULE HeaderStart ----------------------------
(***************************************************************************)
(* Where folding starts: the state of the main chain when the next block   *)
(* is number 123456.  The tip and the target are what that block's header, *)
(* which carries real work, says; the times are those of blocks 123445 to  *)
(* 123455 and, for the epoch, of block 122976.                             *)
(***************************************************************************)
EXTENDS HeaderReal

Height == 123456
EpochStart == Height - (Height % 2016)        \* 122976
BlockTimes == <<1305191152, 1305191688, 1305193319, 1305194571, 1305194986, 1305195947,
                1305197900, 1305199436, 1305200301, 1305200460, 1305200584>>
EpochTime == 1304975844

(* h: the header of block Height *)
Start(h) == [tip |-> h.prev, win |-> [i \in 1..11 |-> FromInt(BlockTimes[i])], target |-> Target(h),
             start |-> FromInt(EpochTime), ctr |-> FromInt(Height - EpochStart), work |-> Zero]

(* what a state must satisfy to be where folding starts *)
StartClauses(z, h) ==
  IF Len(z) # 16 THEN {"StartLength"}
  ELSE LET x == FromZ(z)
           s == Start(h)
       IN (IF x.tip = s.tip THEN {} ELSE {"StartTip"}) \cup (IF x.win = s.win THEN {} ELSE {"StartWindow"})
          \cup (IF x.target = s.target THEN {} ELSE {"StartTarget"}) \cup (IF x.start = s.start THEN {} ELSE {"StartEpoch"})
          \cup (IF x.ctr = s.ctr THEN {} ELSE {"StartCounter"}) \cup (IF x.work = s.work THEN {} ELSE {"StartWork"})
          \cup (IF WellFormed(x) /\ Valid(x, h) THEN {} ELSE {"StartStuck"})
=============================================================================

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  EpochLen <- cEpochLen
  Window = 3
  RadixBits = 2
  Off = 2
  ExpLimit = 4
  MaxTarget <- cMaxTarget
  MinSpan <- cMinSpan
  Period <- cPeriod
  MaxSpan <- cMaxSpan
  TimeBits = 6
  MaxLen = 7
  Times = {12, 13, 16, 19, 40}
  Hashes = {1, 9, 20}
  Exps = {1, 2, 3}
  Mants = {1, 2, 3, 4, 5, 6, 7}
  Ctr0 = {0, 1, 2}
INVARIANTS TypeOK Linked Worked WindowIsHistory Later MedianMonotone CounterIsHeight StartIsFirstOfEpoch SameTargetInEpoch TargetCapped TargetBounded WorkIsSum WorkPositive CompactLaws Replay

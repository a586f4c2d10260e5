SPECIFICATION NSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  EpochLen <- rEpochLen
  Window = 11
  RadixBits = 8
  Off = 3
  ExpLimit = 32
  MaxTarget <- rMaxTarget
  MinSpan <- rMinSpan
  Period <- rPeriod
  MaxSpan <- rMaxSpan
  TimeBits = 32
  MaxLen = 100000
  Times = {}
  Hashes = {}
  Exps = {}
  Mants = {}
  Ctr0 = {}

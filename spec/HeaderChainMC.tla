--------------------------- MODULE HeaderChainMC ----------------------------
EXTENDS HeaderChain
cEpochLen == B(3)
cMaxTarget == B(48)      \* 3 * 4^2
cMinSpan == B(1)
cPeriod == B(4)
cMaxSpan == B(16)
=============================================================================

CONSTANTS
 Alphabet <- MixAlphabet
 MaxLen = 4
INIT QInit
NEXT QNext
INVARIANTS TypeOK Coverage Progress QuoteRoundTrip
CHECK_DEADLOCK FALSE

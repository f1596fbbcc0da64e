CONSTANTS
 Alphabet <- MixAlphabet
 MaxLen = 4
INIT OInit
NEXT QNext
INVARIANTS TypeOK Coverage Progress OpRoundTrip
CHECK_DEADLOCK FALSE

CONSTANTS
 Alphabet <- MixAlphabet
 MaxLen = 4
INIT RInit
NEXT QNext
INVARIANTS TypeOK Coverage Progress RawRoundTrip
CHECK_DEADLOCK FALSE

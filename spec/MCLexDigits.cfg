CONSTANTS
 Alphabet <- MixAlphabet
 MaxLen = 4
INIT NInit
NEXT QNext
INVARIANTS TypeOK Coverage Progress NumRoundTrip
CHECK_DEADLOCK FALSE

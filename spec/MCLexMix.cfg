CONSTANTS
 Alphabet <- MixAlphabet
 MaxLen = 4
INIT KInit
NEXT KNext
INVARIANTS TypeOK Coverage Progress Ends Maximal Local
CHECK_DEADLOCK FALSE

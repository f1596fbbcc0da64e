CONSTANTS
 Alphabet <- StrAlphabet
 MaxLen = 5
INIT KInit
NEXT KNext
INVARIANTS TypeOK Coverage Progress Ends Local
CHECK_DEADLOCK FALSE

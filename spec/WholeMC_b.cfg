SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
 Emit = 3
 Small = FALSE
INVARIANTS TakenIff TakenByFmtToo EveryPosting
CHECK_DEADLOCK FALSE

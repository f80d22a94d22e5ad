SPECIFICATION Spec
CONSTANTS
 MaxLen = 6
 Emit = 5
 Small = TRUE
INVARIANTS TakenIff TakenByFmtToo EveryPosting
CHECK_DEADLOCK FALSE

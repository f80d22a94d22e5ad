SPECIFICATION Spec
CONSTANTS
 MaxLen = 5
 Emit = 4
 Small = TRUE
INVARIANTS TakenIff TakenByFmtToo EveryPosting
CHECK_DEADLOCK FALSE

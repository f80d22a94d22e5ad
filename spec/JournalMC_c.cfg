SPECIFICATION Spec
CONSTANTS
 MaxLen = 6
 Emit = 5
 Small = TRUE
INVARIANTS RoundTrip Idempotent Agree Complete
CHECK_DEADLOCK FALSE

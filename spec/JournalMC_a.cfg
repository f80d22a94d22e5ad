SPECIFICATION Spec
CONSTANTS
 MaxLen = 5
 Emit = 4
 Small = TRUE
INVARIANTS RoundTrip Idempotent Agree Complete
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
 Emit = 3
 Small = FALSE
INVARIANTS RoundTrip Idempotent Agree Complete
CHECK_DEADLOCK FALSE

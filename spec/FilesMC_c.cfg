SPECIFICATION Spec
CONSTANTS
 MaxLen = 2
 Wide = TRUE
INVARIANTS Frame FailFrame Kinds Again
CHECK_DEADLOCK FALSE

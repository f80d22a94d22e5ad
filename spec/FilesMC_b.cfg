SPECIFICATION Spec
CONSTANTS
 MaxLen = 2
 Wide = FALSE
INVARIANTS Frame FailFrame Kinds Again
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 MaxLen = 1
 Wide = TRUE
INVARIANTS Frame FailFrame Kinds Again Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxLines = 5
  Wide = FALSE
  Emit = TRUE
INVARIANTS InvOne InvDates InvCounters InvAmounts InvMore InvUnique EmitInv

CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxLines = 4
  Wide = FALSE
  Emit = TRUE
INVARIANTS InvOne InvDates InvCounters InvAmounts InvMore InvUnique EmitInv

CHECK_DEADLOCK FALSE

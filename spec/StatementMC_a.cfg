SPECIFICATION Spec
CONSTANTS
  MaxRows = 3
  Wide = FALSE
  Emit = TRUE
INVARIANTS InvRefused InvOnePerRow InvBalanced InvSeq InvUnique InvSuffix InvLegacy EmitInv
PROPERTIES ActGrow
CHECK_DEADLOCK FALSE

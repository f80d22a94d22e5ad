SPECIFICATION Spec
CONSTANTS
  StartLen = 1
  C1Len = 1
  C2Len = 0
  Wide = FALSE
  Data = TRUE
  Emit = TRUE
INVARIANTS InvAgree EmitInv
PROPERTIES ActReturn ActBelow ActOne
CHECK_DEADLOCK FALSE

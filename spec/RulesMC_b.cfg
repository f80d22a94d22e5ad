SPECIFICATION Spec
CONSTANTS
  StartLen = 1
  C1Len = 2
  C2Len = 1
  Wide = FALSE
  Data = FALSE
  Emit = TRUE
INVARIANTS InvAgree EmitInv
PROPERTIES ActReturn ActBelow ActOne
CHECK_DEADLOCK FALSE

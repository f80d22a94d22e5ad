SPECIFICATION Spec
CONSTANTS
  StartLen = 2
  C1Len = 0
  C2Len = 0
  Wide = FALSE
  Data = TRUE
  Emit = TRUE
INVARIANTS InvAgree EmitInv
PROPERTIES ActReturn ActBelow ActOne
CHECK_DEADLOCK FALSE

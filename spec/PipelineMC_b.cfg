SPECIFICATION Spec
CONSTANTS
  MaxSteps = 4
  Edits = {"acct", "amt"}
  RuleKinds = {"none", "set"}
  Emit = TRUE
  Shape <- S21
INVARIANTS InvAccepted InvCount InvEach InvRight InvGhost InvAgain EmitInv
CHECK_DEADLOCK FALSE

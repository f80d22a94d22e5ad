SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5
  Edits = {"acct"}
  RuleKinds = {"none", "set"}
  Emit = TRUE
  Shape <- S21
INVARIANTS InvAccepted InvCount InvEach InvRight InvGhost InvAgain EmitInv
CHECK_DEADLOCK FALSE

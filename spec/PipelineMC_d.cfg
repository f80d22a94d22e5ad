SPECIFICATION Spec
CONSTANTS
  MaxSteps = 3
  Edits = {"acct", "value"}
  RuleKinds = {"none", "set", "guess"}
  Emit = TRUE
  Shape <- S212
INVARIANTS InvAccepted InvCount InvEach InvRight InvGhost InvAgain EmitInv
CHECK_DEADLOCK FALSE

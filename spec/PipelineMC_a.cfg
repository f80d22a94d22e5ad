SPECIFICATION Spec
CONSTANTS
  MaxSteps = 3
  Edits = {"acct", "flag", "value", "desc", "amt", "bal"}
  RuleKinds = {"none", "set", "guess", "tag"}
  Emit = TRUE
  Shape <- S21
INVARIANTS InvAccepted InvCount InvEach InvRight InvGhost InvAgain EmitInv
CHECK_DEADLOCK FALSE

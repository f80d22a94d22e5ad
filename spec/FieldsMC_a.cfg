SPECIFICATION Spec
CONSTANTS
  Kind = "gbp"
  Tokens = {"£", "-", "0", "5", ".", ","}
  MaxLen = 5
  Emit = TRUE
INVARIANTS InvAmount InvDate InvTime InvOffset EmitInv
CHECK_DEADLOCK FALSE

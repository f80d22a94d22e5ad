SPECIFICATION Spec
CONSTANTS
  Kind = "pdfdec"
  Tokens = {"-", "0", "5", ".", ",", "123"}
  MaxLen = 5
  Emit = TRUE
INVARIANTS InvAmount InvDate InvTime InvOffset EmitInv
CHECK_DEADLOCK FALSE

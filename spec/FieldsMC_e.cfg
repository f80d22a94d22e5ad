SPECIFICATION Spec
CONSTANTS
  Kind = "ppdate"
  Tokens = {"29", "3", "0", "/", "02", "2019", "2020"}
  MaxLen = 5
  Emit = TRUE
INVARIANTS InvAmount InvDate InvTime InvOffset EmitInv
CHECK_DEADLOCK FALSE

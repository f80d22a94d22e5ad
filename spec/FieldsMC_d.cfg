SPECIFICATION Spec
CONSTANTS
  Kind = "nwdate"
  Tokens = {"29", "3", "0", " ", "Feb", "feb", "2019", "2020"}
  MaxLen = 5
  Emit = TRUE
INVARIANTS InvAmount InvDate InvTime InvOffset EmitInv
CHECK_DEADLOCK FALSE

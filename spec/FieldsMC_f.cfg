SPECIFICATION Spec
CONSTANTS
  Kind = "pptime"
  Tokens = {"23", "24", "60", "59", "0", ":"}
  MaxLen = 5
  Emit = TRUE
INVARIANTS InvAmount InvDate InvTime InvOffset EmitInv
CHECK_DEADLOCK FALSE

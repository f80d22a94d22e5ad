SPECIFICATION Spec
CONSTANTS
  Kind = "offset"
  Tokens = {"UTC", "+", "-", "05", "24", "60", ":", "3"}
  MaxLen = 5
  Emit = TRUE
INVARIANTS InvAmount InvDate InvTime InvOffset EmitInv
CHECK_DEADLOCK FALSE

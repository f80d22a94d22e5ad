SPECIFICATION Spec
CONSTANTS
  Alphabet = {":", " ", "a", "b"}
  MaxLen = 8
  MaxLines = 1
  Emit = TRUE
INVARIANTS InvRoundTrip InvFragile EmitInv
CHECK_DEADLOCK FALSE

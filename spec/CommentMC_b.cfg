SPECIFICATION Spec
CONSTANTS
  Alphabet = {":", " ", "a", "b"}
  MaxLen = 3
  MaxLines = 2
  Emit = TRUE
INVARIANTS InvRoundTrip InvFragile EmitInv
CHECK_DEADLOCK FALSE

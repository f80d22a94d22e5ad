SPECIFICATION Spec
CONSTANTS
  FpNames = {"fp-a", "fp-b", "fp-c"}
  Accts = {"x"}
  Amts = {"1"}
  Bals = {""}
  Dates = {20200101}
  TrnsAt <- P111
  PostsAt <- P112
  Emit = TRUE
INVARIANTS InvFps InvOut InvConserve InvIdem InvUn EmitInv
PROPERTIES ActGrow ActReject ActInc
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  FpNames = {"fp-a", "fp-b", "fp-c"}
  Accts = {"x"}
  Amts = {"1"}
  Bals = {""}
  Dates = {20200101, 20200102}
  TrnsAt <- P22
  PostsAt <- P11
  Emit = TRUE
INVARIANTS InvFps InvOut InvConserve InvIdem InvUn EmitInv
PROPERTIES ActGrow ActReject ActInc
CHECK_DEADLOCK FALSE

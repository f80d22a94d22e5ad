SPECIFICATION Spec
CONSTANTS
  MaxRows = 4
  Zones = {"Europe/London", "America/New_York"}
  Wide = FALSE
  Emit = TRUE
INVARIANTS InvRefused InvGroups InvUnique InvZone InvSuffix EmitInv

CHECK_DEADLOCK FALSE

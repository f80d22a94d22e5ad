SPECIFICATION Spec
CONSTANTS
  MaxRows = 3
  Zones = {"UTC", "Europe/London", "America/New_York"}
  Wide = FALSE
  Emit = TRUE
INVARIANTS InvRefused InvGroups InvUnique InvZone InvSuffix EmitInv

CHECK_DEADLOCK FALSE

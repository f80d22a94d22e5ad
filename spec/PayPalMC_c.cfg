SPECIFICATION Spec
CONSTANTS
  MaxRows = 3
  Zones = {"Europe/London", "Asia/Kathmandu", "Etc/GMT+12"}
  Wide = TRUE
  Emit = TRUE
INVARIANTS InvRefused InvGroups InvUnique InvZone InvSuffix EmitInv

CHECK_DEADLOCK FALSE

SPECIFICATION GSpec
CONSTANTS
  ProfileName = "kv"
  Steps = 40
  Slots = {1, 2}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE

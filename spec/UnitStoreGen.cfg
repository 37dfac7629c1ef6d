SPECIFICATION GSpec
CONSTANTS
  ProfileName = "query"
  Steps = 40
INVARIANT TypeOK
CHECK_DEADLOCK FALSE

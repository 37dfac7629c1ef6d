SPECIFICATION MSpec
CONSTANTS
  K = {1, 2}
  Slots = {1}
  MaxTime = 4
  MaxVal = 3
  MaxBatch = 2
CONSTRAINT Bound
INVARIANTS TypeOK MostRecent MostRecent2 Hidden Iter
PROPERTIES PutSeen DelSeen LogSeen FreeSeen Invisible AbortSeen WriteSeen Survives NoInvention RecoveredSealed
CHECK_DEADLOCK FALSE

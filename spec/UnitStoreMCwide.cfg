SPECIFICATION MSpec
CONSTANTS
  MaxMsgs = 2
  MaxTime = 21
  MaxGrp = 1
  Wide = TRUE
INVARIANTS TypeOK CompleteAndSound Ordered Prefix CutoffOK Isolated Bracket IndexedIsDurable CountOK BatchAtomic
PROPERTIES IdsGrow DeadStays LiveStays NoDeleteIfImmutable DurableStays SyncInvisible BatchTogether ClosedIsIdle
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANTS
  MaxMsgs = 2
  MaxTime = 10
  MaxGrp = 1
  Wide = FALSE
INVARIANTS TypeOK CompleteAndSound Ordered Prefix CutoffOK Isolated Bracket IndexedIsDurable CountOK BatchAtomic
PROPERTIES IdsGrow DeadStays LiveStays NoDeleteIfImmutable DurableStays SyncInvisible BatchTogether ClosedIsIdle
CHECK_DEADLOCK FALSE

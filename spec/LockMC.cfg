SPECIFICATION Spec
CONSTANTS
 Actors <- A3
 Procs <- P2
 ProcOf <- PO
 Fault = "none"
INVARIANTS TypeOK Exclusive Free Recovers
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Clients <- MCClients
 Contract <- MCContract
 Primary <- MCPrimary
 MaxPub = 1
 Pats <- PatsOne
 Tops <- TopsSmall
 Modes = {1}
 MaxWait = 0
 MaxSub = 1
INVARIANTS TypeOK Isolation Once
PROPERTIES Kept Absent Own Stored Again
CHECK_DEADLOCK FALSE

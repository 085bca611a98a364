SPECIFICATION Spec
CONSTANTS
 Var = {1,2,3}
 Meth <- Mix
 Values <- V2
 MaxOps = 4
 Settable = {1,2,3}
 InitMet = {}
 AllowFault = FALSE
 AllowOverride = FALSE
 AllowRemove = TRUE
INVARIANTS Structure UpToDate AbortContract NothingLost
PROPERTIES MeetsContract Unique Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Var = {1,2,3,4}
 Meth <- Two
 Values <- V2
 MaxOps = 3
 Settable = {1,2,3,4}
 InitMet = {1,2}
 AllowFault = FALSE
 AllowOverride = TRUE
 AllowRemove = TRUE
INVARIANTS Structure UpToDate AbortContract NothingLost
PROPERTIES MeetsContract Unique Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Var = {1,2,3,4,5}
 Meth <- Fan
 Values <- V2
 MaxOps = 3
 Settable = {1}
 InitMet = {1,2,3,4}
 AllowFault = FALSE
 AllowOverride = FALSE
 AllowRemove = TRUE
INVARIANTS Structure UpToDate AbortContract NothingLost
PROPERTIES MeetsContract Unique Terminates
CHECK_DEADLOCK FALSE

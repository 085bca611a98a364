SPECIFICATION Spec
CONSTANTS
 Var = {1,2,3,4}
 Meth <- Two
 Values <- V2
 Settable = {1}
 Deferred = TRUE
 EmitOn = TRUE
VIEW View
ACTION_CONSTRAINT EmitStep
INVARIANTS Structure UpToDate EvalMeetsContract Idempotent DeferEq DeferAdd
PROPERTIES RefusalKeeps RemovalExact Untouched
CHECK_DEADLOCK FALSE

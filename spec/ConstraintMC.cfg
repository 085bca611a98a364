SPECIFICATION Spec
CONSTANTS
 Var = {1,2,3,4}
 CTab <- Table
VIEW View
ACTION_CONSTRAINT EmitStep
INVARIANTS Laws EmitState
PROPERTIES RemovalExact
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT N = 5
VIEW View
ACTION_CONSTRAINT EmitStep
INVARIANTS Laws EmitState
PROPERTY Monotone
CHECK_DEADLOCK FALSE

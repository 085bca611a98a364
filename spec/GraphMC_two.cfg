SPECIFICATION Spec
VIEW View
CONSTANTS Vertex = {1, 2}
 Value = {1}
 Handle = {1, 2}
 EmitOn = TRUE
INVARIANTS Laws EmitState
ACTION_CONSTRAINT EmitStep
PROPERTIES RemovalExact FailKeeps Independent SourceKept
CHECK_DEADLOCK FALSE

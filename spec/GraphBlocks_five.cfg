SPECIFICATION Spec
CONSTANTS
  N = 5
  Cut = {1, 2, 3, 4, 5}
  Probe = {}
  MaxCalls = 4
  EmitOn = FALSE
VIEW View
INVARIANT Refines
PROPERTY StepRefines
CHECK_DEADLOCK FALSE

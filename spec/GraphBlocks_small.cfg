SPECIFICATION Spec
CONSTANTS
  N = 4
  Cut = {1, 2, 3, 4}
  Probe = {}
  MaxCalls = 4
  EmitOn = FALSE
VIEW View
INVARIANT Refines
PROPERTY StepRefines
CHECK_DEADLOCK FALSE

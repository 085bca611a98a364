SPECIFICATION Spec
CONSTANTS
 N = 3
 MaxLen = 4
INVARIANTS Emit Equivalence
CHECK_DEADLOCK FALSE

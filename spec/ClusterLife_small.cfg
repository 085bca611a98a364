SPECIFICATION Spec
INVARIANT AllValid
PROPERTIES Owned Weaker
CHECK_DEADLOCK FALSE
CONSTANTS
N = 3
Steps = 1
MaxCl = 2
MaxSrc = 1
Draw = FALSE

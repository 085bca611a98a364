SPECIFICATION Spec
INVARIANT AllValid
CHECK_DEADLOCK FALSE
CONSTANTS
N = 6
Steps = 40
MaxCl = 5
MaxSrc = 4
Draw = TRUE

SPECIFICATION Spec
INVARIANT Same
CHECK_DEADLOCK FALSE
CONSTANTS
N = 5
Cut = {1, 2, 3, 4, 5}
Steps = 1
Small = TRUE

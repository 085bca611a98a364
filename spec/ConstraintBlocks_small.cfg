SPECIFICATION Spec
VIEW View
INVARIANT Shape Same
CHECK_DEADLOCK FALSE
CONSTANTS
N = 4
Cut = {1, 2, 3, 4}
MaxCalls = 3
EmitOn = FALSE
Small = TRUE

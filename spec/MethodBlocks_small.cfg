SPECIFICATION Spec
VIEW View
INVARIANT Shape Same
PROPERTY RefusedRight Settled1
CHECK_DEADLOCK FALSE
CONSTANTS
N = 4
Cut = {1, 2, 3, 4}
Heads = {1000001, 0, 3}
Hubs = {1, 2}
MaxCalls = 4
EmitOn = FALSE
Small = TRUE

SPECIFICATION Spec
INVARIANT Emit Hold
CHECK_DEADLOCK FALSE

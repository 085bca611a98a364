SPECIFICATION Spec
VIEW View
CONSTANT NHandle = 3
INVARIANT Laws
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
VIEW View
INVARIANT AtEnd
CHECK_DEADLOCK FALSE

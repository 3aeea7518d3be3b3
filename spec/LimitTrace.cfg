SPECIFICATION Spec
INVARIANTS Consistent AtEnd
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS NI = 3
VIEW View
INVARIANTS TypeOK OptionalFree ConstrainedIsFinite EmitNode
PROPERTIES Ascending
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE

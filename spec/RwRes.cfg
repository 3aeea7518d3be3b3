SPECIFICATION Spec
CONSTANTS NR = 3
VIEW View
INVARIANTS TypeOK Symmetric UnionConflicts MapKeepsConflicts EmitNode
PROPERTIES Monotone
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS World = FALSE
 NV = 2
 NSlots = 2
VIEW View
INVARIANTS TypeOK ManyReadersOrOneWriter OnlyPresentBorrowed CheckedIsFetchable EmitNode
PROPERTIES FailedLeavesNothing DeclaredIsBorrowed
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE

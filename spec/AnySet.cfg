SPECIFICATION Spec
CONSTANTS NC = 2
 NV = 2
 Cloning = FALSE
 NLive = 2
VIEW View
INVARIANTS TypeOK EmitNode
PROPERTIES OnlyTheEntity CloningKeepsSource DeadChangesNothing
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE

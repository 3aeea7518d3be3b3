SPECIFICATION Spec
CONSTANTS MaxH = 3
 NC = 2
 NV = 1
 Tracked = FALSE
VIEW View
INVARIANTS TypeOK OneLivePerIndex FreeExact DeadHaveNothing UnregisteredHaveNothing EmitNode
PROPERTIES NewHaveNothing DeathTouchesNoOther AccessTouchesNoOther RefusedChangesNothing Conserved
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS NI = 3
 NV = 2
 Tracked = TRUE
VIEW View
INVARIANTS TypeOK SlotsAgree EmitNode
PROPERTIES OthersUntouched InsertStores ModifiedGrows OffAddsNothing ReadsAddNothing ChangesAreTracked NothingElseDestroys AllDestroyed
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE

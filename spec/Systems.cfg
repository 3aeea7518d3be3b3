SPECIFICATION Spec
CONSTANTS NCheck = 3
 NRun = 4
 NMacro = 8
 NR = 2
 Plize = FALSE
VIEW View
INVARIANTS CheckExact PairsPartition GroupsRight EmitNode
PROPERTIES ErrorsExact
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE

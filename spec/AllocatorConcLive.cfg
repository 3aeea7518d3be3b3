SPECIFICATION Spec
CONSTANTS Procs = {p1,p2}
 NOps = 2
 Weak = FALSE
INVARIANTS QuietLow
PROPERTIES Progress
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Procs = {p1,p2}
 NOps = 2
 Weak = TRUE
SYMMETRY Symm
INVARIANTS QuietLow
PROPERTIES Refines Replies
CHECK_DEADLOCK FALSE

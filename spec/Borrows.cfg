CONSTANTS
    Roots = {"st","w","rs","set","cset","ms"}
    MaxChain = 3
    MaxSecond = 2
    Brief = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK Exclusive Emit
CHECK_DEADLOCK FALSE

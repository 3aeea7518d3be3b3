CONSTANTS
    NMax = 4
    NRes = 1
    Panics = FALSE
SPECIFICATION Spec
INVARIANTS OnlyBeside NoConflict Final NoStop PanicStops
PROPERTIES OverStays
CHECK_DEADLOCK FALSE

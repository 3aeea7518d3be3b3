CONSTANTS
    NMax = 0
    NRes = 0
    Panics = FALSE
SPECIFICATION TSpec
VIEW Place
INVARIANT AtEnd
CHECK_DEADLOCK FALSE

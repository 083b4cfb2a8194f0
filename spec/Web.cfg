SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
    BB = 1
    Words = 2
    Lines = 2
    Px = 6
    Starts = {0, 3}
    Fault = "none"
INVARIANTS Shows SoFar

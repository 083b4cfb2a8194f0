SPECIFICATION Spec
INVARIANT Refines
CHECK_DEADLOCK FALSE
CONSTANTS
    WB = 4
    Words = 3
    Vis = 10
    Rows = 2
    MaxW = 4
    MaxHt = 2
    Fault = "none"

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
    Cps = {1, 2}
    MaxC = 3
    MaxS = 4
    MaxListed = 3
    Fault = "none"
INVARIANTS FindsWhatIsMeant Sorted

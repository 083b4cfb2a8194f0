SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
    B = 3
    Fault = "none"
INVARIANTS Normalised OrderFree LimbOrder LimbsDiffer

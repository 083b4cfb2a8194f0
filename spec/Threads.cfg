SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
    Scripts <- ThreeThreads
    Fault = "none"
INVARIANTS AsIfAlone

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
    Size = 4
    WB = 4
    Borders = {0, 1, 2, 3, 5}
    Gutters = {0, 1, 2, 3, 5}
    Fault = "none"
INVARIANTS StepsAreTrim NoInkLost Tight BlankIsNothing WholeIsWhole SpaceIs4x2 Fits PackIsLoop Unpacks CellsPartition

SPECIFICATION MCSpec
CHECK_DEADLOCK TRUE
CONSTANTS
    Width = 12
    Lines = 9
    RowPx = 16
    MaxU = 60
    NL = 0
    Unknown = 9
    MaxLen = 2
    MaxCalls = 1
    Rich = FALSE
    Entries <- MEntries
    Glyph <- MGlyph
    MaxH <- MMaxH
INVARIANTS TypeOK Containment ClearExact Total Deterministic Segmented GreedyLongest PureXor Twice Split StyleFree EmojiAlways Disjoint MaskOnly Function HintIsLineHeight
PROPERTIES Progress Advancing NoReach WrapsOnlyIfNeeded

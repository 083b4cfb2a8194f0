SPECIFICATION TraceSpec
INVARIANT NoViolation
CHECK_DEADLOCK TRUE
ALIAS Brief
CONSTANTS
    Width = 336
    Lines = 536
    RowPx = 352
    MaxU = 1073741824
    NL = 10
    Unknown = 65533
    Entries <- TEntries
    Glyph <- TGlyph
    MaxH <- TMaxH
VIEW Progress

SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANTS
    Width = 336
    Lines = 536
    RowPx = 352
    MaxU = 1073741824
    NL = 10
    Unknown = 65533
    MaxDemos = 2
    Fault = "none"
    Entries <- TEntries
    Glyph <- TGlyph
    MaxH <- TMaxH
INVARIANTS ShowsPicture PaddingKept NothingCut InPaddedScreen

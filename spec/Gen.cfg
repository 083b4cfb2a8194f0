SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANTS
    Width = 336
    Lines = 536
    RowPx = 352
    MaxU = 1073741824
    NL = 10
    Unknown = 65533
    Mix = "mixed"
    Entries <- TEntries
    Glyph <- TGlyph
    MaxH <- TMaxH
INVARIANTS GContainment GOnScreen GConsumed

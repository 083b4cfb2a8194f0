----------------------------- MODULE FontTable -----------------------------
(***************************************************************************)
(* The font constants of a run, read from a file: the clusters (and their  *)
(* glyphs) that can start anywhere in the strings of the run.  A glyph is  *)
(* given by its rows, or as an untrimmed sprite of a sheet.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

ToSet(q) == {q[k] : k \in DOMAIN q}
RunSet(rs) == UNION {rs[k][1] .. rs[k][2] : k \in DOMAIN rs}
FontJson == JsonDeserialize(IOEnv.FONT)

CG == INSTANCE Codegen
(* constant tables, evaluated once *)
GlyphTab == [set \in DOMAIN FontJson |->
    [k \in DOMAIN FontJson[set].glyphs |->
        LET j == FontJson[set].glyphs[k]
        IN  IF "cell" \in DOMAIN j     \* a sprite, still to be trimmed
            THEN CG!SpriteGlyph(j.size, [i \in 1..j.size |-> RunSet(j.cell[i])], j.kind)
            ELSE [w |-> j.w, h |-> j.h, yo |-> j.yo, rows |-> [i \in DOMAIN j.rows |-> RunSet(j.rows[i])]]]]
IndexTab == [set \in DOMAIN FontJson |->
    [k \in DOMAIN FontJson[set].index |-> ToSet(FontJson[set].index[k])]]
TEntries(set, cp) == LET k == ToString(cp) IN IF k \in DOMAIN IndexTab[set] THEN IndexTab[set][k] ELSE {}
TGlyph(set, g) == GlyphTab[set][g]
TMaxH(set) == FontJson[set].maxh
=============================================================================

----------------------------- MODULE MCCodegen -----------------------------
(***************************************************************************)
(* Every sprite of a small size: the generator's steps against their       *)
(* meaning.  Fault plants a slip ("notop": offset lost; "interior": blank  *)
(* rows removed anywhere; "lastword": no flush of a partial word; "border":*)
(* the cell's end computed without the border).                            *)
(***************************************************************************)
EXTENDS Codegen, TLC

CONSTANTS Size, WB, Borders, Gutters, Fault

VARIABLES cell, glyph, done
mcv == <<cell, glyph, done>>
Kinds == {"prop", "whole"} \cup (IF Size % 2 = 0 /\ Size >= 4 THEN {"space"} ELSE {})

NoGlyph == [w |-> 0, h |-> 0, yo |-> 0, rows |-> <<>>]
Steps(c, kind) ==
    LET t == TrimSteps(MatrixOf(Size, c), Limits(Size, kind))
        keep(r) == ~BlankRow(r)
        m == IF Fault = "interior" /\ kind = "prop" THEN SelectSeq(t.m, keep) ELSE t.m
    IN  GlyphOfMatrix(m, IF Fault = "notop" THEN 0 ELSE t.yo)

Init == /\ \E r1, r2 \in SUBSET (0 .. Size - 1) : cell = [k \in 1..Size |-> IF k = 1 THEN r1 ELSE IF k = 2 THEN r2 ELSE {}]
        /\ glyph = NoGlyph /\ done = "no"
Next == /\ done = "no"
        /\ \E kind \in Kinds, c \in [3..Size -> SUBSET (0 .. Size - 1)] :
             /\ cell' = [k \in 1..Size |-> IF k \in 3..Size THEN c[k] ELSE cell[k]]
             /\ done' = kind
             /\ glyph' = Steps(cell', kind)
Spec == Init /\ [][Next]_mcv

Ink(c) == UNION {{<<x, y>> : x \in c[y]} : y \in 1..Size}
Shifted(g, l) == UNION {{<<x + l, y + g.yo>> : x \in g.rows[y]} : y \in 1..g.h}

(* the steps do what the meaning says *)
StepsAreTrim == done /= "no" => glyph = SpriteGlyph(Size, cell, done)
(* no ink is lost, only the horizontal position is *)
NoInkLost == done /= "no" => \E l \in 0..Size : Shifted(glyph, l) = Ink(cell)
(* margins of a proportional glyph are gone *)
Tight == done = "prop" /\ glyph.w > 0 =>
    /\ glyph.rows[1] /= {} /\ glyph.rows[glyph.h] /= {}
    /\ \E y \in 1..glyph.h : 0 \in glyph.rows[y]
    /\ \E y \in 1..glyph.h : glyph.w - 1 \in glyph.rows[y]
BlankIsNothing == done = "prop" /\ Ink(cell) = {} => glyph = NoGlyph
WholeIsWhole == done = "whole" => glyph.w = Size /\ glyph.h = Size /\ glyph.yo = 0
SpaceIs4x2 == done = "space" /\ Ink(cell) = {} => glyph.w = 4 /\ glyph.h = 2
Fits == done /= "no" => glyph.h + glyph.yo <= Size /\ glyph.w <= Size

(* packing: the loop is the definition, and can be undone *)
PackIsLoop == done /= "no" =>
    PackWords(glyph, WB) = IF Fault = "lastword" /\ Len(PackBits(glyph)) % WB /= 0
                           THEN SubSeq(PackLoop(PackBits(glyph), 1, 0, <<>>, WB), 1, Len(PackBits(glyph)) \div WB)
                           ELSE PackLoop(PackBits(glyph), 1, 0, <<>>, WB)
BitOf(words, k) == (words[((k - 1) \div WB) + 1] \div 2^(WB - 1 - ((k - 1) % WB))) % 2
Unpacks == done /= "no" => LET ws == PackWords(glyph, WB) IN
    \A y \in 1..glyph.h, x \in 0 .. glyph.w - 1 :
        (x \in glyph.rows[y]) <=> BitOf(ws, (y - 1) * glyph.w + (glyph.w - x)) = 1

(* a sprite's cell, for every border and gutter: disjoint from the others,
   of the configured size, and without gutter pixels *)
End(b, g, k) == IF Fault = "border" THEN (k + 1) * (Size + g) ELSE b + k * (Size + g) + Size
CellsPartition == \A b \in Borders, g \in Gutters, k \in 0..3 :
    LET S(j) == b + j * (Size + g) .. End(b, g, j) - 1 IN
    /\ Cardinality(S(k)) = Size
    /\ \A j \in 0..3 : j /= k => S(j) \cap S(k) = {}
    /\ \A x \in S(k) : x >= b /\ (x - b) % (Size + g) < Size
=============================================================================

------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The geometry of the painter: rectangles, cursors, where a glyph of a    *)
(* given size goes, which pixels it inks, and how rows of pixels combine.  *)
(* No state; Blitstr builds its actions from these operators, Proofs has   *)
(* the theorems about them (TLAPS, for all integers and all sets).         *)
(*                                                                         *)
(* A frame buffer, and an ink, is a function from rows y to sets of x      *)
(* (absent rows are empty).                                                *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
    Width,      \* visible pixels per row               (336)
    Lines,      \* rows                                 (536)
    RowPx,      \* pixels per row including padding     (352)
    MaxU,       \* image of the largest machine integer (see Arith!Projection)
    MaxH(_)     \* line height of a glyph set

---------------------------------------------------------------------------
(* Helpers *)
Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
SatAdd(a, b) == IF a > MaxU - b THEN MaxU ELSE a + b
SymDiff(A, B) == (A \ B) \cup (B \ A)
Row(f, y) == IF y \in DOMAIN f THEN f[y] ELSE {}
XorRows(f, g) == [y \in DOMAIN f \cup DOMAIN g |-> IF y \in DOMAIN g THEN SymDiff(Row(f, y), g[y]) ELSE f[y]]
SameRows(f, g) == \A y \in DOMAIN f \cup DOMAIN g : Row(f, y) = Row(g, y)
NoRows == [y \in {} |-> {}]

---------------------------------------------------------------------------
(* Rectangles and cursors.  A rectangle is [x0, y0, x1, y1], min inclusive,
   max exclusive. *)
MkRect(ax, ay, bx, by) == [x0 |-> Min(ax, bx), y0 |-> Min(ay, by), x1 |-> Max(ax, bx), y1 |-> Max(ay, by)]
FullScreen == MkRect(0, 0, Width, Lines)
PaddedScreen == MkRect(6, 6, Width - 6, Lines - 6)
MkCursor(x, y, lh) == [x |-> x, y |-> y, lh |-> lh]
TopLeftOf(r) == MkCursor(r.x0, r.y0, 0)

OnScreen(r) == r.x1 <= Width /\ r.y1 <= Lines
NonEmpty(r) == r.x0 < r.x1 /\ r.y0 < r.y1
Paintable(r) == OnScreen(r) /\ r.x0 < r.x1     \* the guard paint_str uses
Cols(r) == r.x0 .. r.x1 - 1
InkRange(r) == IF OnScreen(r) /\ NonEmpty(r) THEN Cols(r) \X (r.y0 .. r.y1 - 1) ELSE {}

---------------------------------------------------------------------------
(* Layout *)
LowestLine == MaxH("Small")
NewlineCur(r, c) == [x |-> r.x0, y |-> SatAdd(SatAdd(c.y, Max(c.lh, LowestLine)), 1), lh |-> 0]
LeftEdge(r, c) == [c EXCEPT !.x = Max(@, r.x0)]
Wraps(r, c, w) == SatAdd(LeftEdge(r, c).x, 1 + w + 2) >= r.x1
Place(r, c, w) == IF Wraps(r, c, w) THEN NewlineCur(r, LeftEdge(r, c)) ELSE LeftEdge(r, c)
Advance(p, w, set) == [x |-> SatAdd(p.x, w + 3), y |-> p.y, lh |-> Max(p.lh, MaxH(set))]

(* Ink of glyph record g with its cell's top left corner at p, cropped to r:
   1 pixel left padding, artwork offset g.yo below the line top. *)
Ink(r, p, g) ==
    LET left == p.x + 1
        top == SatAdd(p.y, g.yo)
    IN  [y \in Max(top, r.y0) .. Min(top + g.h, r.y1) - 1 |->
            {left + k : k \in g.rows[y - top + 1]} \cap Cols(r)]

ClearRows(f, r) == [y \in DOMAIN f \cup (r.y0 .. r.y1 - 1) |->
                        IF y >= r.y0 /\ y < r.y1 THEN Row(f, y) \cup Cols(r) ELSE f[y]]
CanClear(r) == OnScreen(r) /\ NonEmpty(r)
=============================================================================

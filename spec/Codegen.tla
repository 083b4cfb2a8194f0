------------------------------ MODULE Codegen ------------------------------
(***************************************************************************)
(* What the font generator makes of a sprite sheet.                        *)
(*                                                                         *)
(* A sprite is a cell of size x size pixels of a sheet; a glyph record is  *)
(* [w, h, yo, rows] as in Blitstr.  Trim is the meaning: blank rows and    *)
(* columns are removed from the edges only, at most lim.t, lim.r, lim.b,   *)
(* lim.l of them.  The operators in the second half are the generator's    *)
(* own steps (transpose, drop leading blank rows, reverse, ...; packing    *)
(* into words), which MCCodegen checks against the meaning.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CMax(a, b) == IF a >= b THEN a ELSE b
CMin(a, b) == IF a <= b THEN a ELSE b

(* kind of trimming of a cell of a given size *)
Limits(size, kind) ==
    CASE kind = "prop"  -> [t |-> size, r |-> size, b |-> size, l |-> size]
      [] kind = "whole" -> [t |-> 0, r |-> 0, b |-> 0, l |-> 0]
      [] kind = "space" -> [t |-> (size \div 2) - 1, r |-> (size \div 2) - 2, b |-> (size \div 2) - 1, l |-> (size \div 2) - 2]

(* cell: sequence of rows, each the set of inked columns *)
TrimCell(size, cell, lim) ==
    LET cols == UNION {cell[k] : k \in 1..size}
        inked == {k \in 1..size : cell[k] /= {}}
        lead == IF cols = {} THEN size ELSE CHOOSE x \in cols : \A z \in cols : x <= z
        tail == IF cols = {} THEN size ELSE size - 1 - (CHOOSE x \in cols : \A z \in cols : z <= x)
        top  == IF inked = {} THEN size ELSE (CHOOSE k \in inked : \A z \in inked : k <= z) - 1
        bot  == IF inked = {} THEN size ELSE size - (CHOOSE k \in inked : \A z \in inked : z <= k)
        l == CMin(lead, lim.l)
        r == CMin(CMin(tail, lim.r), size - l)
        t == CMin(top, lim.t)
        b == CMin(CMin(bot, lim.b), size - t)
        w == size - l - r
        h == size - t - b
    IN  IF w = 0 \/ h = 0
        THEN [w |-> 0, h |-> 0, yo |-> 0, rows |-> <<>>]
        ELSE [w |-> w, h |-> h, yo |-> t, rows |-> [k \in 1..h |-> {x - l : x \in cell[t + k]}]]

SpriteGlyph(size, cell, kind) == TrimCell(size, cell, Limits(size, kind))

---------------------------------------------------------------------------
(* The generator's steps, on matrices: sequences of rows of 0/1 *)
Transpose(m) == IF m = <<>> THEN <<>> ELSE [x \in 1..Len(m[1]) |-> [y \in 1..Len(m) |-> m[y][x]]]
Reversed(m) == [k \in 1..Len(m) |-> m[Len(m) + 1 - k]]
BlankRow(r) == \A k \in DOMAIN r : r[k] = 0
RECURSIVE DropLeading(_, _)
DropLeading(m, n) == IF n > 0 /\ m /= <<>> /\ BlankRow(m[1]) THEN DropLeading(Tail(m), n - 1) ELSE m
TrimSteps(m0, lim) ==
    LET m1 == DropLeading(Transpose(m0), lim.l)
        m2 == Transpose(Reversed(DropLeading(Reversed(m1), lim.r)))
        m3 == DropLeading(m2, lim.t)
        m4 == Reversed(DropLeading(Reversed(m3), lim.b))
    IN  [m |-> m4, yo |-> Len(m2) - Len(m3)]
MatrixOf(size, cell) == [y \in 1..size |-> [x \in 1..size |-> IF (x - 1) \in cell[y] THEN 1 ELSE 0]]
GlyphOfMatrix(m, yo) ==
    IF m = <<>> \/ m[1] = <<>> THEN [w |-> 0, h |-> 0, yo |-> yo, rows |-> <<>>]
    ELSE [w |-> Len(m[1]), h |-> Len(m), yo |-> yo, rows |-> [y \in 1..Len(m) |-> {x - 1 : x \in {k \in DOMAIN m[y] : m[y][k] = 1}}]]

(* where a cell starts, and whether a pixel of the sheet belongs to it *)
CellOrigin(border, gutter, size, k) == border + k * (size + gutter)
InCell(border, gutter, size, k, x) == x >= CellOrigin(border, gutter, size, k) /\ x < CellOrigin(border, gutter, size, k) + size

(* packing with WB-bit words: rightmost pixel of a row first, most
   significant bit first; the last word is filled up with zeros *)
PackBits(g) == [k \in 1 .. g.w * g.h |->
    LET y == ((k - 1) \div g.w) + 1
        x == g.w - 1 - ((k - 1) % g.w)
    IN  IF x \in g.rows[y] THEN 1 ELSE 0]
PackWords(g, wb) ==
    LET bits == PackBits(g)
        n == IF Len(bits) = 0 THEN 1 ELSE (Len(bits) + wb - 1) \div wb
        bit(k) == IF k <= Len(bits) THEN bits[k] ELSE 0
        word(j) == LET f[b \in 0..wb] == IF b = wb THEN 0 ELSE bit((j - 1) * wb + b + 1) * 2^(wb - 1 - b) + f[b + 1] IN f[0]
    IN  [j \in 1..n |-> word(j)]
(* the generator's loop: a word is flushed when it is full, a partial one is
   shifted up at the end *)
RECURSIVE PackLoop(_, _, _, _, _)
PackLoop(bits, k, buf, out, wb) ==
    IF k > Len(bits)
    THEN IF Len(bits) % wb = 0 /\ Len(bits) > 0 THEN out
         ELSE Append(out, IF Len(bits) = 0 THEN 0 ELSE buf * 2^(wb - (Len(bits) % wb)))
    ELSE LET b == buf * 2 + bits[k] IN
         IF k % wb = 0 THEN PackLoop(bits, k + 1, 0, Append(out, b), wb)
         ELSE PackLoop(bits, k + 1, b, out, wb)
=============================================================================

----------------------------- MODULE WordBlit -----------------------------
(***************************************************************************)
(* The implementation's inner loops at the level of machine words, checked *)
(* against the pixel-level specification.                                  *)
(*                                                                         *)
(* A row of the frame buffer is a sequence of words of WB bits, the least  *)
(* significant bit being the leftmost pixel; glyph rows are packed, w bits *)
(* each, most significant bit first, into a sequence of WB-bit words (the  *)
(* format the code generator emits); unpacking, cropping and placing them  *)
(* is done with shifts and masks on whole words exactly as in the painting *)
(* and clearing routines.  WB = 4 stands for 32, a glyph being at most one *)
(* word wide.  Shifting by WB or more is an error (the machine's is).      *)
(*                                                                         *)
(* Fault selects a slip (repaired in the code, or easy to make); with      *)
(* Fault # "none" TLC must find a difference, which is how we know that    *)
(* the comparison has teeth.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS WB, Words, Vis, Rows, MaxW, MaxHt, Fault

VARIABLES todo, got      \* the case at hand; what the word algorithm made of it
wvars == <<todo, got>>

Full == 2^WB - 1
RowBits == WB * Words
Bit(w, k) == (w \div 2^k) % 2
And(a, b) == LET f[k \in 0..WB] == IF k = WB THEN 0 ELSE Bit(a, k) * Bit(b, k) * 2^k + f[k + 1] IN f[0]
Or(a, b) == a + b - And(a, b)
Xor(a, b) == a + b - 2 * And(a, b)
(* shift by an amount that the machine accepts; anything else is ERR *)
ERR == -1
Shl(a, k) == IF k \in 0 .. WB - 1 THEN (a * 2^k) % 2^WB ELSE ERR
Shr(a, k) == IF k \in 0 .. WB - 1 THEN a \div 2^k ELSE ERR

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b

---------------------------------------------------------------------------
(* The code generator's packing: bits of all rows one after the other,     *)
(* within a row the RIGHTMOST pixel first (so that, unpacked, the leftmost *)
(* pixel is the least significant bit), most significant bit of the first word first.           *)
PixelAt(rows, w, k) == LET y == k \div w x == (w - 1) - (k % w) IN IF x \in rows[y + 1] THEN 1 ELSE 0
Pack(rows, w, h) ==
    LET n == w * h
        words == (n + WB - 1) \div WB
        bit(k) == IF k < n THEN PixelAt(rows, w, k) ELSE 0
        word[j \in 0 .. words - 1] ==
            LET f[b \in 0..WB] == IF b = WB THEN 0 ELSE bit(j * WB + b) * 2^(WB - 1 - b) + f[b + 1] IN f[0]
    IN  [j \in 1..words |-> word[j - 1]]

---------------------------------------------------------------------------
(* One glyph row: unpack as the painting routine does *)
UnpackRow(data, w, y) ==
    LET off == y * w
        low == 1 + off \div WB
        inLow == WB - (off % WB)
        p0 == data[low]
        p1 == Shl(p0, WB - inLow)
        p2 == IF w = 0 THEN ERR ELSE Shr(p1, WB - w)
        inHigh == w - inLow
        ph == IF Fault = "highbits" THEN Shr(data[low + 1], WB - inHigh - 1) ELSE Shr(data[low + 1], WB - inHigh)
    IN  IF w > inLow /\ Fault # "nohigh" THEN Or(p2, ph) ELSE p2

(* x0 = first column of the glyph; clip right edge x1; row = words of the row *)
BlitRow(row, data, w, y, x0, x1) ==
    LET wmax == IF x0 + w <= x1 \/ Fault = "rightclip" THEN w ELSE x1 - x0
        raw == UnpackRow(data, w, y)
        pat == IF wmax < w THEN And(raw, 2^wmax - 1) ELSE raw
        lo == x0 \div WB
        hi == (x0 + w) \div WB
        inLow == WB - (x0 % WB)
        a == Shl(pat, WB - inLow)
        crosses == IF Fault = "edge" THEN inLow <= wmax - 1 /\ inLow > 1 ELSE inLow < wmax
    IN  [j \in 0 .. Words - 1 |->
            LET v == row[j] IN
            LET v1 == IF j = lo THEN (IF a = ERR THEN ERR ELSE Xor(v, a)) ELSE v IN
            IF j = hi /\ crosses
            THEN (IF Shr(pat, inLow) = ERR \/ v1 = ERR THEN ERR ELSE Xor(v1, Shr(pat, inLow)))
            ELSE v1]

(* the whole glyph with its cell row y0, cropped at top, bottom and right *)
BlitGlyph(fbuf, data, w, h, x0, y0, r) ==
    LET n == IF y0 >= r.y1 THEN 0 ELSE IF y0 + h <= r.y1 THEN h ELSE r.y1 - y0 IN
    [y \in 0 .. Rows - 1 |->
        IF y >= y0 /\ y < y0 + n /\ (y >= r.y0 \/ Fault = "topclip")
        THEN BlitRow(fbuf[y], data, w, y - y0, x0, r.x1)
        ELSE fbuf[y]]

(* The clearing routine's masks *)
ClearRow(row, x0, x1) ==
    LET lo == x0 \div WB
        hi == x1 \div WB
        nlo == WB - (x0 % WB)
        nhi == x1 % WB
        left == Shl(Full, WB - nlo)
        right == Shr(Full, WB - nhi)
    IN  [j \in 0 .. Words - 1 |->
            IF lo = hi
            THEN IF j # lo THEN row[j]
                 ELSE IF Fault = "clearsame" THEN Or(row[j], left)
                 ELSE IF left = ERR \/ right = ERR THEN ERR ELSE Or(row[j], And(left, right))
            ELSE IF j = lo THEN (IF left = ERR THEN ERR ELSE Or(row[j], left))
            ELSE IF j > lo /\ j < hi THEN Full
            ELSE IF j = hi /\ (nhi > 0 \/ Fault = "clearedge") THEN (IF right = ERR THEN ERR ELSE Or(row[j], right))
            ELSE row[j]]
ClearWords(fbuf, r) ==
    [y \in 0 .. Rows - 1 |-> IF y >= r.y0 /\ y < r.y1 THEN ClearRow(fbuf[y], r.x0, r.x1) ELSE fbuf[y]]

---------------------------------------------------------------------------
(* Pixels of a word-level frame buffer, and the pixel-level meaning *)
Pixels(fbuf) == {q \in (0 .. RowBits - 1) \X (0 .. Rows - 1) :
                    fbuf[q[2]][q[1] \div WB] # ERR /\ Bit(fbuf[q[2]][q[1] \div WB], q[1] % WB) = 1}
HasErr(fbuf) == \E y \in 0 .. Rows - 1, j \in 0 .. Words - 1 : fbuf[y][j] = ERR
Box(r) == (r.x0 .. r.x1 - 1) \X (r.y0 .. r.y1 - 1)
Sym(A, B) == (A \ B) \cup (B \ A)
GlyphInk(rows, h, x0, y0, r) == {q \in Box(r) : q[2] - y0 \in 0 .. h - 1 /\ q[1] - x0 \in rows[q[2] - y0 + 1]}

Background(k) == [y \in 0 .. Rows - 1 |-> [j \in 0 .. Words - 1 |-> CASE k = 0 -> 0 [] k = 1 -> Full [] k = 2 -> 5 % 2^WB]]

Bitmaps(w, h) == [1..h -> SUBSET (0 .. w - 1)]
Rectangles == {r \in [x0 : 0..Vis, y0 : 0..Rows, x1 : 0..Vis, y1 : 0..Rows] : r.x0 < r.x1 /\ r.y0 < r.y1}
(* where the layout can put a glyph of width w: the ink starts at least one
   right of the rectangle's left edge, and either stays short of its right
   edge or starts exactly one pixel into a line *)
Places(w, r) == {x \in 1..Vis : x > r.x0 /\ (x + w + 2 < r.x1 \/ x = r.x0 + 1)}

ClearCases == {[op |-> "clear", r |-> r, bg |-> b] : r \in Rectangles, b \in 0..2}
GlyphShapes == [op : {"glyph"}, w : 1..MaxW, h : 1..MaxHt, r : Rectangles]

Init == got = <<>> /\ todo \in ClearCases \cup GlyphShapes
Do == /\ got = <<>>
      /\ \/ /\ todo.op = "clear" /\ UNCHANGED todo
            /\ got' = ClearWords(Background(todo.bg), todo.r)
         \/ /\ todo.op = "glyph"
            /\ \E b \in Bitmaps(todo.w, todo.h), x \in Places(todo.w, todo.r), y \in 0 .. Rows :
                 /\ todo' = [op |-> "glyph", w |-> todo.w, h |-> todo.h, bm |-> b, r |-> todo.r, x |-> x, y |-> y, bg |-> 2]
                 /\ got' = BlitGlyph(Background(2), Pack(b, todo.w, todo.h), todo.w, todo.h, x, y, todo.r)
Spec == Init /\ [][Do]_wvars

Refines ==
    got # <<>> =>
        /\ ~HasErr(got)
        /\ IF todo.op = "clear"
           THEN Pixels(got) = Pixels(Background(todo.bg)) \cup Box(todo.r)
           ELSE Sym(Pixels(got), Pixels(Background(todo.bg))) = GlyphInk(todo.bm, todo.h, todo.x, todo.y, todo.r)
=============================================================================

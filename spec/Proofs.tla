------------------------------- MODULE Proofs -------------------------------
(***************************************************************************)
(* Theorems about the operators of Layout, from which Blitstr builds its   *)
(* actions (and against which the traces of the real code are checked).    *)
(* Proved with TLAPS: for all integers, rectangles, fonts and frame        *)
(* buffers, no bounds.                                                     *)
(***************************************************************************)
EXTENDS Layout, NaturalsInduction, TLAPS

CONSTANTS Sets                  \* the glyph sets
ASSUME Numbers == /\ Width \in Nat /\ Lines \in Nat /\ MaxU \in Nat
                  /\ "Small" \in Sets
                  /\ \A s \in Sets : MaxH(s) \in Nat /\ MaxH(s) >= MaxH("Small")

Rects == [x0 : Nat, y0 : Nat, x1 : Nat, y1 : Nat]
Cursors == [x : Nat, y : Nat, lh : Nat]
Glyphs == [w : Nat, h : Nat, yo : Nat, rows : [Nat -> SUBSET Nat]]
Bitmaps(D) == [D -> SUBSET Nat]

---------------------------------------------------------------------------
(* C14: rectangles are normalised whatever corners are given, in any order *)
THEOREM RectNormal ==
    \A a, b, c, d \in Nat :
        /\ MkRect(a, b, c, d) \in Rects
        /\ MkRect(a, b, c, d).x0 <= MkRect(a, b, c, d).x1
        /\ MkRect(a, b, c, d).y0 <= MkRect(a, b, c, d).y1
        /\ MkRect(a, b, c, d) = MkRect(c, d, a, b)
        /\ MkRect(a, b, c, d) = MkRect(a, d, c, b)
        /\ (a <= c /\ b <= d) => MkRect(a, b, c, d) = [x0 |-> a, y0 |-> b, x1 |-> c, y1 |-> d]
  BY DEF MkRect, Min, Max, Rects

---------------------------------------------------------------------------
(* Cursors stay cursors, and only move down; within a line, to the right   *)
LEMMA SatNat == \A a, b \in Nat : /\ SatAdd(a, b) \in Nat
                                  /\ (a <= MaxU => SatAdd(a, b) >= a /\ SatAdd(a, b) <= MaxU)
                                  /\ (a + b <= MaxU => SatAdd(a, b) = a + b)
  BY Numbers DEF SatAdd

LEMMA NewlineType == ASSUME NEW r \in Rects, NEW c \in Cursors PROVE NewlineCur(r, c) \in Cursors
  <1>1. Max(c.lh, LowestLine) \in Nat BY Numbers DEF Max, LowestLine, Cursors
  <1>2. SatAdd(c.y, Max(c.lh, LowestLine)) \in Nat BY <1>1, SatNat DEF Cursors
  <1>3. SatAdd(SatAdd(c.y, Max(c.lh, LowestLine)), 1) \in Nat BY <1>2, SatNat
  <1>. QED BY <1>3 DEF NewlineCur, Cursors, Rects

LEMMA LeftType == ASSUME NEW r \in Rects, NEW c \in Cursors
                  PROVE /\ LeftEdge(r, c) \in Cursors /\ LeftEdge(r, c).y = c.y /\ LeftEdge(r, c).lh = c.lh
                        /\ LeftEdge(r, c).x >= c.x /\ LeftEdge(r, c).x >= r.x0
  BY DEF LeftEdge, Cursors, Rects, Max

LEMMA PlaceType == ASSUME NEW r \in Rects, NEW c \in Cursors, NEW w \in Nat
                   PROVE Place(r, c, w) \in Cursors
  BY LeftType, NewlineType DEF Place

LEMMA AdvanceType == ASSUME NEW p \in Cursors, NEW w \in Nat, NEW s \in Sets
                     PROVE Advance(p, w, s) \in Cursors
  <1>1. SatAdd(p.x, w + 3) \in Nat BY SatNat DEF Cursors
  <1>2. Max(p.lh, MaxH(s)) \in Nat BY Numbers DEF Max, Cursors
  <1>. QED BY <1>1, <1>2 DEF Advance, Cursors

(* C07: a newline goes below the line, all of it, unless the numbers end *)
THEOREM NewlineBelow ==
    ASSUME NEW r \in Rects, NEW c \in Cursors, c.y + c.lh + LowestLine + 1 <= MaxU
    PROVE  /\ NewlineCur(r, c).y > c.y + c.lh
           /\ NewlineCur(r, c).x = r.x0
           /\ NewlineCur(r, c).lh = 0
  <1>1. LowestLine \in Nat BY Numbers DEF LowestLine
  <1>. DEFINE m == Max(c.lh, LowestLine)
  <1>2. m \in Nat /\ m >= c.lh /\ m <= c.lh + LowestLine BY <1>1 DEF Max, Cursors
  <1>0. NewlineCur(r, c) = [x |-> r.x0, y |-> SatAdd(SatAdd(c.y, m), 1), lh |-> 0] BY DEF NewlineCur
  <1>. HIDE DEF m
  <1>5. c.y \in Nat /\ c.lh \in Nat BY DEF Cursors
  <1>6. c.y + m + 1 <= MaxU BY <1>1, <1>2, <1>5, Numbers
  <1>3. SatAdd(c.y, m) = c.y + m BY <1>2, <1>5, <1>6, Numbers DEF SatAdd
  <1>4. SatAdd(c.y + m, 1) = c.y + m + 1 BY <1>2, <1>5, <1>6, Numbers DEF SatAdd
  <1>. QED BY <1>0, <1>1, <1>2, <1>3, <1>4 DEF Cursors

(* C07: the cursor never goes up; and on its line never to the left *)
THEOREM NeverBack ==
    ASSUME NEW r \in Rects, NEW c \in Cursors, NEW w \in Nat, NEW s \in Sets,
           c.x <= MaxU, c.y <= MaxU, r.x0 <= MaxU
    PROVE  LET p == Place(r, c, w)  a == Advance(p, w, s) IN
           /\ a.y >= c.y
           /\ (p.y = c.y /\ ~Wraps(r, c, w)) => a.x >= c.x
           /\ a.x >= r.x0
           /\ a.lh >= MaxH(s)
  <1>1. LeftEdge(r, c).x <= MaxU BY DEF LeftEdge, Cursors, Rects, Max
  <1>2. NewlineCur(r, LeftEdge(r, c)).y >= c.y
    <2>1. LeftEdge(r, c) \in Cursors /\ LeftEdge(r, c).y = c.y BY LeftType
    <2>. DEFINE m == Max(LeftEdge(r, c).lh, LowestLine)
    <2>2. m \in Nat BY <2>1, Numbers DEF Max, LowestLine, Cursors
    <2>3. SatAdd(c.y, m) \in Nat /\ SatAdd(c.y, m) >= c.y /\ SatAdd(c.y, m) <= MaxU BY <2>2, SatNat DEF Cursors
    <2>4. SatAdd(SatAdd(c.y, m), 1) >= SatAdd(c.y, m) BY <2>3, SatNat
    <2>5. NewlineCur(r, LeftEdge(r, c)).y = SatAdd(SatAdd(c.y, m), 1) BY <2>1 DEF NewlineCur
    <2>. QED BY <2>3, <2>4, <2>5, SatNat DEF Cursors
  <1>3. Place(r, c, w) \in Cursors BY PlaceType
  <1>4. Place(r, c, w).y >= c.y BY <1>2, LeftType DEF Place, Cursors
  <1>5. Place(r, c, w).x <= MaxU /\ Place(r, c, w).x >= r.x0
    BY <1>1, LeftType DEF Place, NewlineCur, Rects
  <1>6. ~Wraps(r, c, w) => Place(r, c, w).x >= c.x BY LeftType DEF Place
  <1>7. SatAdd(Place(r, c, w).x, w + 3) >= Place(r, c, w).x /\ SatAdd(Place(r, c, w).x, w + 3) \in Nat
    BY <1>3, <1>5, SatNat DEF Cursors
  <1>8. Max(Place(r, c, w).lh, MaxH(s)) >= MaxH(s) BY <1>3, Numbers DEF Max, Cursors
  <1>. QED BY <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF Advance, Cursors, Rects

---------------------------------------------------------------------------
(* C01: no ink outside the rectangle, whatever the glyph *)
THEOREM InkInside ==
    ASSUME NEW r, NEW p, NEW g
    PROVE  \A y \in DOMAIN Ink(r, p, g) : Ink(r, p, g)[y] \subseteq Cols(r)
  BY DEF Ink

THEOREM InkRows ==
    ASSUME NEW r \in Rects, NEW p \in Cursors, NEW g \in Glyphs
    PROVE  \A y \in DOMAIN Ink(r, p, g) : y >= r.y0 /\ y < r.y1
  <1>. DEFINE top == SatAdd(p.y, g.yo)
  <1>1. top \in Nat BY SatNat DEF Cursors, Glyphs
  <1>2. DOMAIN Ink(r, p, g) = Max(top, r.y0) .. Min(top + g.h, r.y1) - 1 BY DEF Ink
  <1>3. Max(top, r.y0) >= r.y0 /\ Max(top, r.y0) \in Nat BY <1>1 DEF Max, Rects
  <1>4. Min(top + g.h, r.y1) <= r.y1 /\ Min(top + g.h, r.y1) \in Nat BY <1>1 DEF Min, Rects, Glyphs
  <1>. HIDE DEF top
  <1>. QED BY <1>2, <1>3, <1>4 DEF Rects

(* C08: a glyph that is not wrapped stays clear of the right edge by two pixels *)
THEOREM NoReach ==
    ASSUME NEW r \in Rects, NEW c \in Cursors, NEW w \in Nat, ~Wraps(r, c, w), r.x1 <= MaxU
    PROVE  Place(r, c, w) = LeftEdge(r, c) /\ Place(r, c, w).x + 1 + w + 2 < r.x1
  <1>1. LeftEdge(r, c).x \in Nat BY LeftType DEF Cursors
  <1>2. SatAdd(LeftEdge(r, c).x, 1 + w + 2) < r.x1 BY <1>1, SatNat DEF Wraps, Rects
  <1>3. SatAdd(LeftEdge(r, c).x, 1 + w + 2) = LeftEdge(r, c).x + 1 + w + 2
    BY <1>1, <1>2, Numbers DEF SatAdd, Rects
  <1>. QED BY <1>2, <1>3 DEF Place

---------------------------------------------------------------------------
(* C10: paint is pure XOR *)
THEOREM Reversible == \A f, g : SameRows(XorRows(XorRows(f, g), g), f)
  BY DEF SameRows, XorRows, Row, SymDiff

THEOREM Commutes == \A f, g, h : SameRows(XorRows(XorRows(f, g), h), XorRows(XorRows(f, h), g))
  BY DEF SameRows, XorRows, Row, SymDiff

(* what a call changes does not depend on what was there: background-free *)
THEOREM Associates == \A f, g, h : SameRows(XorRows(XorRows(f, g), h), XorRows(f, XorRows(g, h)))
  BY DEF SameRows, XorRows, Row, SymDiff

THEOREM Painted == \A f, g : SameRows(XorRows(XorRows(f, g), f), g)
  BY DEF SameRows, XorRows, Row, SymDiff

---------------------------------------------------------------------------
(* C13: moving the top or bottom of the rectangle only masks *)
THEOREM LayoutIgnoresHeight ==
    ASSUME NEW r \in Rects, NEW q \in Rects, r.x0 = q.x0, r.x1 = q.x1, NEW c \in Cursors, NEW w \in Nat
    PROVE  Place(r, c, w) = Place(q, c, w) /\ NewlineCur(r, c) = NewlineCur(q, c) /\ (Wraps(r, c, w) <=> Wraps(q, c, w))
  BY DEF Place, Wraps, NewlineCur, LeftEdge

THEOREM MovingMasks ==
    ASSUME NEW r \in Rects, NEW q \in Rects, r.x0 = q.x0, r.x1 = q.x1, NEW p \in Cursors, NEW g \in Glyphs
    PROVE  \A y \in Nat : (y >= r.y0 /\ y < r.y1 /\ y >= q.y0 /\ y < q.y1) => Row(Ink(r, p, g), y) = Row(Ink(q, p, g), y)
  <1>. DEFINE top == SatAdd(p.y, g.yo)
  <1>1. top \in Nat BY SatNat DEF Cursors, Glyphs
  <1>. SUFFICES ASSUME NEW y \in Nat, y >= r.y0, y < r.y1, y >= q.y0, y < q.y1
                PROVE Row(Ink(r, p, g), y) = Row(Ink(q, p, g), y)
    OBVIOUS
  <1>2. y \in (Max(top, r.y0) .. Min(top + g.h, r.y1) - 1) <=> (y >= top /\ y < top + g.h)
    BY <1>1 DEF Max, Min, Rects, Glyphs
  <1>3. y \in (Max(top, q.y0) .. Min(top + g.h, q.y1) - 1) <=> (y >= top /\ y < top + g.h)
    BY <1>1 DEF Max, Min, Rects, Glyphs
  <1>4. Cols(r) = Cols(q) BY DEF Cols
  <1>5. DOMAIN Ink(r, p, g) = Max(top, r.y0) .. Min(top + g.h, r.y1) - 1 BY DEF Ink
  <1>6. DOMAIN Ink(q, p, g) = Max(top, q.y0) .. Min(top + g.h, q.y1) - 1 BY DEF Ink
  <1>7. y \in DOMAIN Ink(r, p, g) => Ink(r, p, g)[y] = {p.x + 1 + k : k \in g.rows[y - top + 1]} \cap Cols(r) BY DEF Ink
  <1>8. y \in DOMAIN Ink(q, p, g) => Ink(q, p, g)[y] = {p.x + 1 + k : k \in g.rows[y - top + 1]} \cap Cols(q) BY DEF Ink
  <1>. QED BY <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF Row

---------------------------------------------------------------------------
(* C02 *)
THEOREM ClearExact ==
    ASSUME NEW f, NEW r \in Rects, NEW y \in Nat
    PROVE  Row(ClearRows(f, r), y) = IF y >= r.y0 /\ y < r.y1 THEN Row(f, y) \cup Cols(r) ELSE Row(f, y)
  <1>1. y \in (r.y0 .. r.y1 - 1) <=> (y >= r.y0 /\ y < r.y1) BY DEF Rects
  <1>. QED BY <1>1 DEF ClearRows, Row

---------------------------------------------------------------------------
(* C12: boxes painted by one call are disjoint.  Every box so far lies     *)
(* above the line of the cursor, or on it and left of it (Behind); then    *)
(* so does the next one, and it is disjoint from all of them.  A box is    *)
(* the cell of a glyph's artwork; its rows lie within its set's line       *)
(* height (FontFacts!InCell).                                              *)
Boxes == [x0 : Nat, x1 : Nat, y0 : Nat, y1 : Nat]
BoxOf(p, g) == [x0 |-> p.x + 1, x1 |-> p.x + 1 + g.w, y0 |-> p.y + g.yo, y1 |-> p.y + g.yo + g.h]
Behind(b, c) == b.y1 < c.y \/ (b.y1 <= c.y + c.lh /\ b.x1 + 2 <= c.x)
Disjoint(a, b) == a.x1 <= b.x0 \/ b.x1 <= a.x0 \/ a.y1 <= b.y0 \/ b.y1 <= a.y0
Small(r, c, g) == /\ c.y + c.lh + LowestLine + 1 <= MaxU
                  /\ c.x + g.w + 3 <= MaxU /\ r.x0 + g.w + 3 <= MaxU

LEMMA BehindNewline ==
    ASSUME NEW r \in Rects, NEW c \in Cursors, NEW b \in Boxes, Behind(b, c), c.y + c.lh + LowestLine + 1 <= MaxU
    PROVE  Behind(b, NewlineCur(r, c))
  <1>1. NewlineCur(r, c).y > c.y + c.lh BY NewlineBelow
  <1>2. NewlineCur(r, c) \in Cursors BY NewlineType
  <1>. QED BY <1>1, <1>2 DEF Behind, Boxes, Cursors

LEMMA BehindLeft ==
    ASSUME NEW r \in Rects, NEW c \in Cursors, NEW b \in Boxes, Behind(b, c)
    PROVE  Behind(b, LeftEdge(r, c))
  BY LeftType DEF Behind, Boxes, Cursors

LEMMA BehindPlace ==
    ASSUME NEW r \in Rects, NEW c \in Cursors, NEW b \in Boxes, NEW g \in Glyphs, Behind(b, c), Small(r, c, g)
    PROVE  Behind(b, Place(r, c, g.w))
  <1>1. Behind(b, LeftEdge(r, c)) /\ LeftEdge(r, c) \in Cursors BY BehindLeft, LeftType
  <1>2. LeftEdge(r, c).y + LeftEdge(r, c).lh + LowestLine + 1 <= MaxU BY LeftType DEF Small
  <1>3. Behind(b, NewlineCur(r, LeftEdge(r, c))) BY <1>1, <1>2, BehindNewline
  <1>. QED BY <1>1, <1>3 DEF Place

THEOREM NextIsDisjoint ==
    ASSUME NEW r \in Rects, NEW c \in Cursors, NEW b \in Boxes, NEW g \in Glyphs, Behind(b, c), Small(r, c, g)
    PROVE  Disjoint(b, BoxOf(Place(r, c, g.w), g))
  <1>1. Behind(b, Place(r, c, g.w)) BY BehindPlace
  <1>2. Place(r, c, g.w) \in Cursors BY PlaceType DEF Glyphs
  <1>. QED BY <1>1, <1>2 DEF Disjoint, BoxOf, Behind, Boxes, Cursors, Glyphs

THEOREM StaysBehind ==
    ASSUME NEW r \in Rects, NEW c \in Cursors, NEW b \in Boxes, NEW g \in Glyphs, NEW s \in Sets,
           Behind(b, c), Small(r, c, g), g.yo + g.h <= MaxH(s)
    PROVE  LET p == Place(r, c, g.w)  a == Advance(p, g.w, s) IN Behind(b, a) /\ Behind(BoxOf(p, g), a)
  <1>. DEFINE p == Place(r, c, g.w)
  <1>. DEFINE a == Advance(p, g.w, s)
  <1>1. Behind(b, p) BY BehindPlace
  <1>2. p \in Cursors BY PlaceType DEF Glyphs
  <1>3. p.x + g.w + 3 <= MaxU BY DEF Place, NewlineCur, LeftEdge, Small, Cursors, Rects, Glyphs, Max
  <1>. HIDE DEF p
  <1>4. a.x = p.x + (g.w + 3) BY <1>2, <1>3, SatNat DEF Advance, Cursors, Glyphs
  <1>5. a.y = p.y BY DEF Advance
  <1>6. a.lh = Max(p.lh, MaxH(s)) BY DEF Advance
  <1>7. MaxH(s) \in Nat BY Numbers
  <1>8. a.lh \in Nat /\ a.lh >= p.lh /\ a.lh >= MaxH(s) BY <1>2, <1>6, <1>7 DEF Max, Cursors
  <1>. HIDE DEF a
  <1>9. Behind(b, a) BY <1>1, <1>2, <1>4, <1>5, <1>8 DEF Behind, Boxes, Cursors, Glyphs
  <1>10. Behind(BoxOf(p, g), a) BY <1>2, <1>4, <1>5, <1>7, <1>8 DEF Behind, BoxOf, Cursors, Glyphs
  <1>. QED BY <1>9, <1>10 DEF p, a

(* the same as a machine: one call paints glyph after glyph, with newlines
   anywhere; boxes is everything it painted so far, in order *)
VARIABLES r, c, n, boxes
pv == <<r, c, n, boxes>>
PInit == r \in Rects /\ c \in Cursors /\ n = 0 /\ boxes = [i \in 1..0 |-> 0]
PNewline == /\ c.y + c.lh + LowestLine + 1 <= MaxU
            /\ c' = NewlineCur(r, c) /\ UNCHANGED <<r, n, boxes>>
PGlyph == \E g \in Glyphs, s \in Sets :
            /\ Small(r, c, g) /\ g.yo + g.h <= MaxH(s)
            /\ c' = Advance(Place(r, c, g.w), g.w, s)
            /\ n' = n + 1
            /\ boxes' = [i \in 1..(n + 1) |-> IF i = n + 1 THEN BoxOf(Place(r, c, g.w), g) ELSE boxes[i]]
            /\ UNCHANGED r
PNext == PNewline \/ PGlyph
PSpec == PInit /\ [][PNext]_pv

NoOverlap == \A i, j \in 1..n : i < j => Disjoint(boxes[i], boxes[j])
PInv == /\ r \in Rects /\ c \in Cursors /\ n \in Nat
        /\ \A i \in 1..n : boxes[i] \in Boxes /\ Behind(boxes[i], c)
        /\ NoOverlap

LEMMA BoxType == ASSUME NEW p \in Cursors, NEW g \in Glyphs PROVE BoxOf(p, g) \in Boxes
  BY DEF BoxOf, Boxes, Cursors, Glyphs

LEMMA PInductive == PInv /\ [PNext]_pv => PInv'
  <1>. SUFFICES ASSUME PInv, [PNext]_pv PROVE PInv'
    OBVIOUS
  <1>1. CASE UNCHANGED pv BY <1>1 DEF PInv, NoOverlap, pv
  <1>2. CASE PNewline
    <2>1. c' \in Cursors BY <1>2, NewlineType DEF PInv, PNewline
    <2>2. \A i \in 1..n : Behind(boxes[i], c') BY <1>2, BehindNewline DEF PInv, PNewline
    <2>. QED BY <1>2, <2>1, <2>2 DEF PInv, PNewline, NoOverlap
  <1>3. CASE PGlyph
    <2>. PICK g \in Glyphs, s \in Sets :
            /\ Small(r, c, g) /\ g.yo + g.h <= MaxH(s)
            /\ c' = Advance(Place(r, c, g.w), g.w, s)
            /\ n' = n + 1
            /\ boxes' = [i \in 1..(n + 1) |-> IF i = n + 1 THEN BoxOf(Place(r, c, g.w), g) ELSE boxes[i]]
            /\ UNCHANGED r
      BY <1>3 DEF PGlyph
    <2>. DEFINE p == Place(r, c, g.w)
    <2>1. p \in Cursors BY PlaceType DEF Glyphs, PInv
    <2>2. c' \in Cursors BY <2>1, AdvanceType DEF Glyphs
    <2>3. BoxOf(p, g) \in Boxes BY <2>1, BoxType
    <2>4. \A i \in 1..n : Behind(boxes[i], c') BY StaysBehind DEF PInv
    <2>5. Behind(BoxOf(p, g), c')
      <3>1. p.x + g.w + 3 <= MaxU BY DEF Place, NewlineCur, LeftEdge, Small, Cursors, Rects, Glyphs, Max, PInv
      <3>. HIDE DEF p
      <3>2. Advance(p, g.w, s).x = p.x + (g.w + 3) BY <2>1, <3>1, SatNat DEF Advance, Cursors, Glyphs
      <3>3. MaxH(s) \in Nat BY Numbers
      <3>4. Max(p.lh, MaxH(s)) \in Nat /\ Max(p.lh, MaxH(s)) >= MaxH(s) BY <2>1, <3>3 DEF Max, Cursors
      <3>5. Advance(p, g.w, s).y = p.y /\ Advance(p, g.w, s).lh = Max(p.lh, MaxH(s)) BY DEF Advance
      <3>6. Behind(BoxOf(p, g), Advance(p, g.w, s)) BY <2>1, <3>2, <3>3, <3>4, <3>5 DEF Behind, BoxOf, Cursors, Glyphs
      <3>. QED BY <3>6 DEF p
    <2>6. \A i \in 1..n : Disjoint(boxes[i], BoxOf(p, g)) BY NextIsDisjoint DEF PInv
    <2>. HIDE DEF p
    <2>7. boxes' = [i \in 1..(n + 1) |-> IF i = n + 1 THEN BoxOf(p, g) ELSE boxes[i]] BY DEF p
    <2>8. n \in Nat /\ n' = n + 1 BY DEF PInv
    <2>9. \A i \in 1..n' : boxes'[i] \in Boxes /\ Behind(boxes'[i], c') BY <2>3, <2>4, <2>5, <2>7, <2>8 DEF PInv
    <2>10. \A i, j \in 1..n' : i < j => Disjoint(boxes'[i], boxes'[j])
      <3>. SUFFICES ASSUME NEW i \in 1..n', NEW j \in 1..n', i < j PROVE Disjoint(boxes'[i], boxes'[j])
        OBVIOUS
      <3>1. i \in 1..n /\ boxes'[i] = boxes[i] BY <2>7, <2>8
      <3>2. CASE j = n + 1 BY <3>1, <3>2, <2>6, <2>7, <2>8
      <3>3. CASE j # n + 1
        <4>1. j \in 1..n /\ boxes'[j] = boxes[j] BY <3>3, <2>7, <2>8
        <4>. QED BY <3>1, <4>1 DEF PInv, NoOverlap
      <3>. QED BY <3>2, <3>3
    <2>. QED BY <2>2, <2>8, <2>9, <2>10 DEF PInv, NoOverlap
  <1>. QED BY <1>1, <1>2, <1>3 DEF PNext

THEOREM NeverOverlaps == PSpec => []NoOverlap
  <1>1. PInit => PInv BY DEF PInit, PInv, NoOverlap
  <1>2. PInv => NoOverlap BY DEF PInv
  <1>. QED BY <1>1, <1>2, PInductive, PTL DEF PSpec

---------------------------------------------------------------------------
(* C10, for calls of any length: whatever the sequence of inks, the frame
   buffer after m of them is the one before, inverted where the same inks
   leave a mark on an empty one *)
After(f, inks, F) == F[0] = f /\ \A m \in Nat : F[m + 1] = XorRows(F[m], inks[m])
THEOREM BackgroundFree ==
    ASSUME NEW f, NEW inks, NEW F, NEW E, After(f, inks, F), After(NoRows, inks, E)
    PROVE  \A m \in Nat : SameRows(F[m], XorRows(f, E[m]))
  <1>. DEFINE P(m) == SameRows(F[m], XorRows(f, E[m]))
  <1>1. P(0) BY DEF After, SameRows, XorRows, Row, NoRows, SymDiff
  <1>2. ASSUME NEW m \in Nat, P(m) PROVE P(m + 1)
    <2>1. F[m + 1] = XorRows(F[m], inks[m]) /\ E[m + 1] = XorRows(E[m], inks[m]) BY DEF After
    <2>2. SameRows(XorRows(F[m], inks[m]), XorRows(XorRows(f, E[m]), inks[m]))
      BY <1>2 DEF SameRows, XorRows, Row, SymDiff
    <2>3. SameRows(XorRows(XorRows(f, E[m]), inks[m]), XorRows(f, XorRows(E[m], inks[m]))) BY Associates
    <2>4. \A a, b, d : SameRows(a, b) /\ SameRows(b, d) => SameRows(a, d) BY DEF SameRows, Row
    <2>. QED BY <2>1, <2>2, <2>3, <2>4
  <1>. HIDE DEF P
  <1>3. \A m \in Nat : P(m) BY <1>1, <1>2, NatInduction
  <1>. QED BY <1>3 DEF P
=============================================================================

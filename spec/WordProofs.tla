----------------------------- MODULE WordProofs -----------------------------
(***************************************************************************)
(* The word arithmetic of xor_char and clear_region for real 32-bit words, *)
(* all positions, widths and patterns (TLAPS).  A word is the set of its   *)
(* bit numbers that are 1; WordBlit is the same algorithm as a machine,    *)
(* model checked for small words.                                          *)
(***************************************************************************)
EXTENDS Integers, NaturalsInduction, TLAPS

WB == 32
Bits == 0..31
Words == SUBSET Bits
Shl(p, s) == {b \in Bits : b - s \in p}          \* bits shifted out are lost
Shr(p, s) == {b \in Bits : b + s \in p}

---------------------------------------------------------------------------
(* Unpacking a row of w pixels that starts o pixels into the pattern data. *)
(* Pixel i of the data is bit 31 - (i % 32) of word i \div 32 (packed from   *)
(* the top); column k of the row is pixel o + w - 1 - k (mirrored).        *)
Pixel(d, i) == 31 - (i % 32) \in d[i \div 32]
RowMeant(d, o, w) == {k \in 0..(w - 1) : Pixel(d, o + w - 1 - k)}

InLow(o) == 32 - (o % 32)
FromLow(d, o, w) == Shr(Shl(d[o \div 32], 32 - InLow(o)), 32 - w)
RowGot(d, o, w) == IF w > InLow(o) THEN FromLow(d, o, w) \cup Shr(d[o \div 32 + 1], 32 - (w - InLow(o)))
                   ELSE FromLow(d, o, w)

LEMMA Parts == \A i \in Nat : \E q \in Nat, r \in 0..31 : i = 32 * q + r
  <1>. DEFINE P(i) == \E q \in Nat, r \in 0..31 : i = 32 * q + r
  <1>1. P(0)
    <2>1. 0 = 32 * 0 + 0 /\ 0 \in Nat /\ 0 \in 0..31 OBVIOUS
    <2>. QED BY <2>1
  <1>2. ASSUME NEW i \in Nat, P(i) PROVE P(i + 1)
    <2>. PICK q \in Nat, r \in 0..31 : i = 32 * q + r BY <1>2
    <2>1. CASE r < 31
      <3>1. i + 1 = 32 * q + (r + 1) /\ r + 1 \in 0..31 BY <2>1
      <3>. QED BY <3>1
    <2>2. CASE r = 31
      <3>1. i + 1 = 32 * (q + 1) + 0 /\ 0 \in 0..31 /\ q + 1 \in Nat BY <2>2
      <3>. QED BY <3>1
    <2>. QED BY <2>1, <2>2
  <1>. HIDE DEF P
  <1>3. \A i \in Nat : P(i) BY <1>1, <1>2, NatInduction, Isa
  <1>. QED BY <1>3 DEF P

LEMMA QuotientIs == ASSUME NEW q \in Nat, NEW r \in 0..31 PROVE (32 * q + r) \div 32 = q
  BY Z3
LEMMA RemainderIs == ASSUME NEW q \in Nat, NEW r \in 0..31 PROVE (32 * q + r) % 32 = r
  BY Z3

LEMMA DivMod == \A i \in Nat : i = 32 * (i \div 32) + (i % 32) /\ i % 32 \in Bits /\ i \div 32 \in Nat
  <1>. SUFFICES ASSUME NEW i \in Nat PROVE i = 32 * (i \div 32) + (i % 32) /\ i % 32 \in Bits /\ i \div 32 \in Nat
    OBVIOUS
  <1>1. PICK q \in Nat, r \in 0..31 : i = 32 * q + r BY Parts
  <1>2. i \div 32 = q BY <1>1, QuotientIs
  <1>3. i % 32 = r BY <1>1, RemainderIs
  <1>. QED BY <1>1, <1>2, <1>3 DEF Bits

(* in terms of word q and bit offset r of the first pixel, and of word v and
   place s of column k's pixel: no division left *)
LEMMA ShlIn == \A p, s : \A b \in Bits : b \in Shl(p, s) <=> b - s \in p
  BY DEF Shl
LEMMA ShrIn == \A p, s : \A b \in Bits : b \in Shr(p, s) <=> b + s \in p
  BY DEF Shr

LEMMA ColumnPixel ==
    ASSUME NEW o \in Nat, NEW w \in 1..32, NEW k \in 0..31, k <= w - 1
    PROVE  LET q == o \div 32  r == o % 32  i == o + w - 1 - k IN
           IF r + w - 1 - k <= 31 THEN i \div 32 = q /\ i % 32 = r + w - 1 - k
           ELSE i \div 32 = q + 1 /\ i % 32 = r + w - 1 - k - 32
  <1>. PICK q \in Nat, r \in 0..31 : o = 32 * q + r BY Parts
  <1>1. o \div 32 = q /\ o % 32 = r BY QuotientIs, RemainderIs
  <1>2. CASE r + w - 1 - k <= 31
    <2>1. o + w - 1 - k = 32 * q + (r + w - 1 - k) /\ r + w - 1 - k \in 0..31 BY <1>2
    <2>2. (o + w - 1 - k) \div 32 = q BY <2>1, QuotientIs
    <2>3. (o + w - 1 - k) % 32 = r + w - 1 - k BY <2>1, RemainderIs
    <2>. QED BY <1>1, <1>2, <2>2, <2>3
  <1>3. CASE ~(r + w - 1 - k <= 31)
    <2>1. o + w - 1 - k = 32 * (q + 1) + (r + w - 1 - k - 32) /\ r + w - 1 - k - 32 \in 0..31 /\ q + 1 \in Nat BY <1>3
    <2>2. (o + w - 1 - k) \div 32 = q + 1 BY <2>1, QuotientIs
    <2>3. (o + w - 1 - k) % 32 = r + w - 1 - k - 32 BY <2>1, RemainderIs
    <2>. QED BY <1>1, <1>3, <2>2, <2>3
  <1>. QED BY <1>2, <1>3

(* the row as the words' shifts make it, of the words a and b *)
Got(a, b, r, w) == IF w > 32 - r THEN Shr(Shl(a, r), 32 - w) \cup Shr(b, 32 - (w - (32 - r)))
                   ELSE Shr(Shl(a, r), 32 - w)

LEMMA LowIn ==
    ASSUME NEW a, a \subseteq Bits, NEW r \in 0..31, NEW w \in 1..32, NEW k \in Bits
    PROVE  k \in Shr(Shl(a, r), 32 - w) <=> k + (32 - w) <= 31 /\ k + (32 - w) - r \in a
  <1>. PICK m \in Int : m = k + (32 - w) BY DEF Bits
  <1>1. k \in Shr(Shl(a, r), 32 - w) <=> m \in Shl(a, r) BY ShrIn
  <1>2. m \in Bits <=> m <= 31 BY DEF Bits
  <1>3. m \in Shl(a, r) <=> m \in Bits /\ m - r \in a BY DEF Shl
  <1>4. k \in Shr(Shl(a, r), 32 - w) <=> m <= 31 /\ m - r \in a BY <1>1, <1>2, <1>3
  <1>5. m - r \in a <=> k + (32 - w) - r \in a
    <2>1. m - r = k + (32 - w) - r BY DEF Bits
    <2>. QED BY ONLY <2>1, Zenon
  <1>6. m <= 31 <=> k + (32 - w) <= 31
    OBVIOUS
  <1>. HIDE DEF Shl, Shr
  <1>. QED BY <1>4, <1>5, <1>6, Zenon

LEMMA GotIn ==
    ASSUME NEW a, a \subseteq Bits, NEW b, b \subseteq Bits, NEW r \in 0..31, NEW w \in 1..32, NEW k \in Bits
    PROVE  k \in Got(a, b, r, w) <=> (\/ k + (32 - w) <= 31 /\ k + (32 - w) - r \in a
                                      \/ w > 32 - r /\ k + (32 - (w - (32 - r))) \in b)
  <1>1. CASE w > 32 - r
    <2>1. k \in Got(a, b, r, w) <=> k \in Shr(Shl(a, r), 32 - w) \/ k \in Shr(b, 32 - (w - (32 - r))) BY <1>1 DEF Got
    <2>2. k \in Shr(b, 32 - (w - (32 - r))) <=> k + (32 - (w - (32 - r))) \in b BY ShrIn
    <2>. QED BY <2>1, <2>2, LowIn, <1>1
  <1>2. CASE ~(w > 32 - r)
    <2>1. k \in Got(a, b, r, w) <=> k \in Shr(Shl(a, r), 32 - w) BY <1>2 DEF Got
    <2>. QED BY <2>1, LowIn, <1>2
  <1>. QED BY <1>1, <1>2

LEMMA GotMeans ==
    ASSUME NEW a, a \subseteq Bits, NEW b, b \subseteq Bits, NEW r \in 0..31, NEW w \in 1..32, NEW k \in Bits
    PROVE  k \in Got(a, b, r, w)
       <=> (k <= w - 1 /\ IF r + w - 1 - k <= 31 THEN 31 - (r + w - 1 - k) \in a ELSE 31 - (r + w - 1 - k - 32) \in b)
  <1>0. k \in 0..31 BY DEF Bits
  <1>. DEFINE u == k + (32 - w) - r
  <1>. DEFINE v == k + (32 - (w - (32 - r)))
  <1>. DEFINE uu == 31 - (r + w - 1 - k)
  <1>. DEFINE vv == 31 - (r + w - 1 - k - 32)
  <1>1. uu = u
    BY <1>0
  <1>2. vv = v
    BY <1>0
  <1>3. k + (32 - w) <= 31 <=> k <= w - 1
    BY <1>0
  <1>4. u \in a => r + w - 1 - k <= 31
    <2>1. u \in a => u >= 0 BY DEF Bits
    <2>. QED BY <1>0, <2>1
  <1>5. v \in b => k <= w - 1 /\ ~(r + w - 1 - k <= 31)
    <2>1. v \in b => v <= 31 BY DEF Bits
    <2>. QED BY <1>0, <2>1
  <1>6. (k <= w - 1 /\ ~(r + w - 1 - k <= 31)) => w > 32 - r
    BY <1>0
  <1>. DEFINE L == \/ k + (32 - w) <= 31 /\ u \in a
                   \/ w > 32 - r /\ v \in b
  <1>. DEFINE R == k <= w - 1 /\ IF r + w - 1 - k <= 31 THEN uu \in a ELSE vv \in b
  <1>10. k \in Got(a, b, r, w) <=> L BY GotIn
  <1>. HIDE DEF u, v, uu, vv
  <1>7. CASE k <= w - 1 /\ r + w - 1 - k <= 31
    <2>1. ~(v \in b) BY <1>5, <1>7
    <2>2. L <=> u \in a BY <2>1, <1>3, <1>7
    <2>3. R <=> uu \in a BY <1>7
    <2>4. L <=> R BY <2>2, <2>3, <1>1
    <2>. QED BY <2>4, <1>10 DEF uu, vv
  <1>8. CASE k <= w - 1 /\ ~(r + w - 1 - k <= 31)
    <2>1. ~(u \in a) BY <1>4, <1>8
    <2>2. L <=> v \in b BY <2>1, <1>6, <1>8
    <2>3. R <=> vv \in b BY <1>8
    <2>4. L <=> R BY <2>2, <2>3, <1>2
    <2>. QED BY <2>4, <1>10 DEF uu, vv
  <1>9. CASE ~(k <= w - 1)
    <2>1. ~(v \in b) BY <1>5, <1>9
    <2>2. ~(k + (32 - w) <= 31) BY <1>3, <1>9
    <2>3. ~L BY <2>1, <2>2
    <2>4. ~R BY <1>9
    <2>5. L <=> R BY <2>3, <2>4
    <2>. QED BY <2>5, <1>10 DEF uu, vv
  <1>. QED BY <1>7, <1>8, <1>9

THEOREM Unpacks ==
    ASSUME NEW d \in [Nat -> Words], NEW o \in Nat, NEW w \in 1..32
    PROVE  RowGot(d, o, w) = RowMeant(d, o, w)
  <1>. DEFINE q == o \div 32
  <1>. DEFINE r == o % 32
  <1>1. q \in Nat /\ r \in 0..31 BY DivMod DEF Bits
  <1>2. d[q] \in Words /\ d[q + 1] \in Words BY <1>1
  <1>3. d[q] \subseteq Bits /\ d[q + 1] \subseteq Bits BY <1>2 DEF Words
  <1>4. 32 - InLow(o) = r /\ InLow(o) = 32 - r BY <1>1 DEF InLow
  <1>5. RowGot(d, o, w) = Got(d[q], d[q + 1], r, w) BY <1>4 DEF RowGot, FromLow, Got
  <1>6. ASSUME NEW k \in Bits PROVE k \in Got(d[q], d[q + 1], r, w) <=> k \in RowMeant(d, o, w)
    <2>1. k \in 0..31 BY DEF Bits
    <2>2. k \in RowMeant(d, o, w) <=> (k <= w - 1 /\ 31 - ((o + w - 1 - k) % 32) \in d[(o + w - 1 - k) \div 32])
      BY <2>1 DEF RowMeant, Pixel
    <2>3. k <= w - 1 => IF r + w - 1 - k <= 31 THEN (o + w - 1 - k) \div 32 = q /\ (o + w - 1 - k) % 32 = r + w - 1 - k
                         ELSE (o + w - 1 - k) \div 32 = q + 1 /\ (o + w - 1 - k) % 32 = r + w - 1 - k - 32
      BY <2>1, ColumnPixel
    <2>. HIDE DEF q, r
    <2>4. k \in Got(d[q], d[q + 1], r, w) <=> (k <= w - 1 /\ IF r + w - 1 - k <= 31 THEN 31 - (r + w - 1 - k) \in d[q] ELSE 31 - (r + w - 1 - k - 32) \in d[q + 1])
      BY <1>1, <1>3, GotMeans
    <2>5. CASE ~(k <= w - 1) BY <2>2, <2>4, <2>5
    <2>6. CASE k <= w - 1 /\ r + w - 1 - k <= 31
      <3>1. k \in Got(d[q], d[q + 1], r, w) <=> 31 - (r + w - 1 - k) \in d[q] BY <2>4, <2>6
      <3>2. k \in RowMeant(d, o, w) <=> 31 - ((o + w - 1 - k) % 32) \in d[(o + w - 1 - k) \div 32] BY <2>2, <2>6
      <3>3. (o + w - 1 - k) \div 32 = q /\ (o + w - 1 - k) % 32 = r + w - 1 - k BY <2>3, <2>6
      <3>. QED BY <3>1, <3>2, <3>3
    <2>7. CASE k <= w - 1 /\ ~(r + w - 1 - k <= 31)
      <3>1. k \in Got(d[q], d[q + 1], r, w) <=> 31 - (r + w - 1 - k - 32) \in d[q + 1] BY <2>4, <2>7
      <3>2. k \in RowMeant(d, o, w) <=> 31 - ((o + w - 1 - k) % 32) \in d[(o + w - 1 - k) \div 32] BY <2>2, <2>7
      <3>3. (o + w - 1 - k) \div 32 = q + 1 /\ (o + w - 1 - k) % 32 = r + w - 1 - k - 32 BY <2>3, <2>7
      <3>. QED BY <3>1, <3>2, <3>3
    <2>. QED BY <2>5, <2>6, <2>7
  <1>7. Got(d[q], d[q + 1], r, w) \subseteq Bits BY DEF Got, Shr
  <1>8. RowMeant(d, o, w) \subseteq Bits BY DEF RowMeant, Bits
  <1>. HIDE DEF q, r
  <1>. QED BY <1>5, <1>6, <1>7, <1>8

---------------------------------------------------------------------------
(* XORing a row at x0 into one or two words of the frame buffer row: pixel *)
(* x is bit x % 32 of word x \div 32.  wmax columns are inside the clip.   *)
Low(x0) == x0 \div 32
High(x0, w) == (x0 + w) \div 32
Room(x0) == 32 - (x0 % 32)
Inverted(p, x0, w, wmax, x) ==
    \/ x \div 32 = Low(x0) /\ x % 32 \in Shl(p, 32 - Room(x0))
    \/ Room(x0) < wmax /\ x \div 32 = High(x0, w) /\ x % 32 \in Shr(p, Room(x0))

THEOREM Blits ==
    ASSUME NEW x0 \in Nat, NEW w \in 1..32, NEW wmax \in 0..w, NEW p \in SUBSET (0..(wmax - 1)), NEW x \in Nat
    PROVE  Inverted(p, x0, w, wmax, x) <=> x - x0 \in p
  <1>. DEFINE q == x0 \div 32
  <1>. DEFINE r == x0 % 32
  <1>. DEFINE h == (x0 + w) \div 32
  <1>. DEFINE i == x \div 32
  <1>. DEFINE b == x % 32
  <1>1. x0 = 32 * q + r /\ r \in 0..31 /\ q \in Nat BY DivMod DEF Bits
  <1>2. x = 32 * i + b /\ b \in 0..31 /\ i \in Nat BY DivMod DEF Bits
  <1>3. (32 - r < wmax) => h = q + 1
    <2>1. x0 + w \in Nat BY DivMod
    <2>. DEFINE hr == (x0 + w) % 32
    <2>2. x0 + w = 32 * h + hr /\ hr \in 0..31 /\ h \in Nat BY <2>1, DivMod DEF Bits
    <2>. HIDE DEF q, r, h, hr
    <2>. QED BY <1>1, <2>2
  <1>4. Inverted(p, x0, w, wmax, x) <=> (\/ i = q /\ b - r \in p
                                         \/ 32 - r < wmax /\ i = h /\ b + (32 - r) \in p)
    <2>1. 32 - Room(x0) = r BY <1>1 DEF Room
    <2>. QED BY <2>1, <1>2 DEF Inverted, Low, High, Room, Shl, Shr, Bits
  <1>. HIDE DEF q, r, h, i, b
  <1>5. ASSUME i = q PROVE x - x0 = b - r BY <1>1, <1>2, <1>5
  <1>6. ASSUME i = q + 1 PROVE x - x0 = b + (32 - r) BY <1>1, <1>2, <1>6
  <1>7. x - x0 \in p => x - x0 \in Int /\ 0 <= x - x0 /\ x - x0 < wmax
    OBVIOUS
  <1>8. x - x0 \in p => (i = q \/ (i = q + 1 /\ 32 - r < wmax))
    <2>. SUFFICES ASSUME x - x0 \in p PROVE i = q \/ (i = q + 1 /\ 32 - r < wmax)
      OBVIOUS
    <2>1. 0 <= 32 * i + b - (32 * q + r) /\ 32 * i + b - (32 * q + r) < wmax BY <1>1, <1>2, <1>7
    <2>2. wmax <= 32 /\ wmax \in Nat
      OBVIOUS
    <2>3. 32 * i + b < 32 * q + r + wmax /\ 32 * q + r <= 32 * i + b BY <2>1, <1>1, <1>2, <2>2
    <2>4. 32 * q <= 32 * i + 31 BY <2>3, <1>1, <1>2
    <2>5. q <= i BY <2>4, <1>1, <1>2
    <2>6. 32 * i < 32 * q + 64 BY <2>3, <2>2, <1>1, <1>2
    <2>7. i < q + 2 BY <2>6, <1>1, <1>2
    <2>10. i \in Int /\ q \in Int BY <1>1, <1>2
    <2>11. i < q + 2 <=> i <= q + 1 BY <2>10
    <2>8. i = q \/ i = q + 1 BY <2>5, <2>7, <2>10, <2>11
    <2>9. i = q + 1 => 32 - r < wmax BY <2>3, <2>2, <1>1, <1>2
    <2>. QED BY <2>8, <2>9
  <1>9. ASSUME i = h, 32 - r < wmax PROVE x - x0 = b + (32 - r) BY <1>3, <1>6, <1>9
  <1>. QED BY <1>3, <1>4, <1>5, <1>6, <1>8, <1>9

---------------------------------------------------------------------------
(* Clearing: the words' masks set exactly the pixels x0 .. x1 - 1 *)
All == Bits
Set(x0, x1, x) ==
    LET lo == x0 \div 32  hi == x1 \div 32  a == 32 - (x0 % 32)  z == x1 % 32  i == x \div 32  b == x % 32 IN
    IF lo = hi THEN i = lo /\ b \in Shl(All, 32 - a) /\ b \in Shr(All, 32 - z)
    ELSE \/ i = lo /\ b \in Shl(All, 32 - a)
         \/ lo < i /\ i < hi
         \/ z > 0 /\ i = hi /\ b \in Shr(All, 32 - z)

THEOREM Clears ==
    ASSUME NEW x0 \in Nat, NEW x1 \in Nat, x0 < x1, NEW x \in Nat
    PROVE  Set(x0, x1, x) <=> x0 <= x /\ x < x1
  <1>. DEFINE lo == x0 \div 32
  <1>. DEFINE r == x0 % 32
  <1>. DEFINE hi == x1 \div 32
  <1>. DEFINE z == x1 % 32
  <1>. DEFINE i == x \div 32
  <1>. DEFINE b == x % 32
  <1>1. x0 = 32 * lo + r /\ r \in 0..31 /\ lo \in Nat BY DivMod DEF Bits
  <1>2. x1 = 32 * hi + z /\ z \in 0..31 /\ hi \in Nat BY DivMod DEF Bits
  <1>3. x = 32 * i + b /\ b \in 0..31 /\ i \in Nat BY DivMod DEF Bits
  <1>4. b \in Shl(All, 32 - (32 - r)) <=> b >= r
    <2>1. 32 - (32 - r) = r BY <1>1
    <2>2. b - r \in Bits <=> b >= r BY <1>1, <1>3 DEF Bits
    <2>3. b \in Bits BY <1>3 DEF Bits
    <2>. HIDE DEF b, r
    <2>. QED BY <2>1, <2>2, <2>3, ShlIn DEF All
  <1>5. b \in Shr(All, 32 - z) <=> b < z
    <2>3. b \in Int /\ z \in Int /\ 0 <= b /\ z <= 31 BY <1>2, <1>3
    <2>2. b \in Bits BY <1>3 DEF Bits
    <2>. HIDE DEF b, z
    <2>1. b + (32 - z) \in Bits <=> b < z BY <2>3 DEF Bits
    <2>. QED BY <2>1, <2>2, ShrIn DEF All
  <1>6. Set(x0, x1, x) <=> IF lo = hi THEN i = lo /\ b >= r /\ b < z
                           ELSE (i = lo /\ b >= r) \/ (lo < i /\ i < hi) \/ (z > 0 /\ i = hi /\ b < z)
    <2>1. Set(x0, x1, x) <=> IF lo = hi THEN i = lo /\ b \in Shl(All, 32 - (32 - r)) /\ b \in Shr(All, 32 - z)
                            ELSE \/ i = lo /\ b \in Shl(All, 32 - (32 - r))
                                 \/ lo < i /\ i < hi
                                 \/ z > 0 /\ i = hi /\ b \in Shr(All, 32 - z)
      BY DEF Set
    <2>. HIDE DEF lo, r, hi, z, i, b
    <2>. QED BY ONLY <2>1, <1>4, <1>5
  <1>. HIDE DEF lo, r, hi, z, i, b
  <1>7. x0 <= x <=> (lo < i \/ (lo = i /\ r <= b)) BY <1>1, <1>3
  <1>8. x < x1 <=> (i < hi \/ (i = hi /\ b < z)) BY <1>2, <1>3
  <1>9. lo <= hi BY <1>1, <1>2
  <1>10. CASE lo = hi
    <2>1. Set(x0, x1, x) <=> i = lo /\ b >= r /\ b < z BY <1>6, <1>10
    <2>2. (x0 <= x /\ x < x1) <=> i = lo /\ b >= r /\ b < z BY <1>1, <1>2, <1>3, <1>7, <1>8, <1>10
    <2>. QED BY <2>1, <2>2
  <1>11. CASE lo < hi
    <2>1. Set(x0, x1, x) <=> (i = lo /\ b >= r) \/ (lo < i /\ i < hi) \/ (z > 0 /\ i = hi /\ b < z) BY <1>6, <1>11, <1>1, <1>2
    <2>0. lo \in Int /\ hi \in Int /\ i \in Int /\ b \in Int /\ r \in Int /\ z \in Int /\ b >= 0 BY <1>1, <1>2, <1>3
    <2>2. (x0 <= x /\ x < x1) <=> (i = lo /\ b >= r) \/ (lo < i /\ i < hi) \/ (z > 0 /\ i = hi /\ b < z) BY ONLY <2>0, <1>7, <1>8, <1>11
    <2>. QED BY <2>1, <2>2
  <1>. QED BY <1>1, <1>2, <1>9, <1>10, <1>11
=============================================================================

------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* The integer arithmetic of one painted cluster, one newline and one      *)
(* cleared rectangle, at the real screen size and with machine integers of *)
(* 32 or 64 bits: checked symbolically (Apalache) for EVERY cursor, every  *)
(* rectangle and every glyph of at most 32 x 32 pixels, not a sample.      *)
(*                                                                         *)
(* NoOverflow: no intermediate value leaves 0..M (so debug, release, 64    *)
(* and 32 bit builds compute the same numbers); Indexes and Shifts: every  *)
(* word index and shift amount is one the machine accepts. Saturation:     *)
(* saturating arithmetic makes the same decisions as unbounded arithmetic. *)
(* Projection: the picture of machine integers that the traces use (values *)
(* near the top keep their distance to it) commutes with a step.           *)
(***************************************************************************)
EXTENDS Integers

CONSTANT
    \* @type: Int;
    M,         \* largest machine integer
    \* @type: Str;
    Fault      \* a slip that one of the invariants must refute, or "none"
W == 336
L == 536
WPL == 11
FBSIZE == 5896
MU == 1073741824          \* the specification's largest integer

VARIABLES
    \* @type: Int;
    x, \* @type: Int;
    y, \* @type: Int;
    lh, \* @type: Int;
    minx, \* @type: Int;
    miny, \* @type: Int;
    maxx, \* @type: Int;
    maxy, \* @type: Int;
    w, \* @type: Int;
    h, \* @type: Int;
    yo, \* @type: Int;
    row, \* @type: Int;
    mh, \* @type: Str;
    op

CInit32 == M = 4294967295 /\ Fault = "none"
CInit64 == M = 18446744073709551615 /\ Fault = "none"
(* Indexes, NoOverflow, Saturation, Inside, Shifts and ClearSafe must fail: *)
CNoGuard == M = 18446744073709551615 /\ Fault = "noguard"
CPlainAdd == M = 4294967295 /\ Fault = "plainadd"
CStrict == M = 18446744073709551615 /\ Fault = "strict"
CFullRow == M = 18446744073709551615 /\ Fault = "fullrow"
CAlways == M = 18446744073709551615 /\ Fault = "always"
CLastWord == M = 18446744073709551615 /\ Fault = "lastword"

Init ==
    /\ x \in Int /\ x >= 0 /\ x <= M
    /\ y \in Int /\ y >= 0 /\ y <= M
    /\ lh \in Int /\ lh >= 0 /\ lh <= M
    /\ minx \in Int /\ minx >= 0 /\ minx <= M
    /\ miny \in Int /\ miny >= 0 /\ miny <= M
    /\ maxx \in Int /\ maxx >= 0 /\ maxx <= M
    /\ maxy \in Int /\ maxy >= 0 /\ maxy <= M
    /\ w \in 0..32 /\ h \in 0..32 /\ yo \in 0..32 /\ yo + h <= 32
    /\ (w = 0 => h = 0)
    /\ row \in 0..535 /\ mh \in {24, 30, 32}
    /\ op \in {"paint", "newline", "clear"}
Next == UNCHANGED <<x, y, lh, minx, miny, maxx, maxy, w, h, yo, row, mh, op>>

Sat(n) == IF n > M THEN M ELSE n
Mx(a, b) == IF a >= b THEN a ELSE b
Mn(a, b) == IF a <= b THEN a ELSE b
InM(n) == n >= 0 /\ n <= M

---------------------------------------------------------------------------
(* Painting one cluster; the guard is the routine's first test *)
Guard == (maxy <= L \/ Fault = "noguard") /\ maxx <= W /\ minx < maxx
X == IF x < minx THEN minx ELSE x
Wrap == IF Fault = "strict" THEN Sat(Sat(X + 1) + (w + 2)) > maxx
        ELSE Sat(Sat(X + 1) + (w + 2)) >= maxx
NLh == IF lh < 24 THEN 24 ELSE lh
NLy == IF Fault = "plainadd" THEN y + NLh + 1 ELSE Sat(Sat(y + NLh) + 1)
CX == IF Wrap THEN minx ELSE X
CY == IF Wrap THEN NLy ELSE y
CH == IF Wrap THEN 0 ELSE lh
X0 == IF Wrap THEN CX + 1 ELSE Sat(X + 1)
X1 == X0 + w
Lo == X0 \div 32
Hi == X1 \div 32
InLo == 32 - (X0 % 32)
WMax == IF X1 <= maxx \/ Fault = "fullrow" THEN w ELSE maxx - X0
Y0 == Sat(CY + yo)
YMax == IF Y0 >= maxy THEN 0 ELSE IF Y0 + h <= maxy THEN h ELSE maxy - Y0
Painted == row < YMax /\ Y0 + row >= miny
Base == (Y0 + row) * WPL
Painting == op = "paint" /\ Guard

NoOverflow ==
    /\ Painting =>
        /\ InM(CX) /\ InM(CY) /\ InM(X0) /\ InM(X1) /\ InM(WMax)
        /\ (Y0 < maxy => InM(Y0 + h)) /\ InM(YMax)
        /\ (row < YMax => InM(Y0 + row) /\ InM(Base + Hi))
        /\ InM(CX + (w + 3))
    /\ op = "newline" => InM(NLy)
Indexes ==
    Painting /\ Painted =>
        /\ Base + Lo < FBSIZE
        /\ Lo < WPL                                   \* in the row it is meant for
        /\ (InLo < WMax => Base + Hi < FBSIZE /\ Hi < WPL /\ Hi = Lo + 1)
Shifts ==
    Painting /\ Painted =>
        /\ 32 - InLo \in 0..31
        /\ ((InLo < WMax \/ Fault = "always") => InLo \in 0..31)
        /\ (WMax < w => WMax \in 0..31)
        /\ 32 - w \in 0..31
(* what is painted lies in the rectangle, whatever the cursor *)
Inside == Painting /\ Painted =>
    /\ Y0 + row >= miny /\ Y0 + row < maxy
    /\ (WMax > 0 => X0 >= minx /\ X0 + WMax <= maxx)
    /\ WMax >= 0 /\ WMax <= w
(* no pixel of the glyph that lies in the rectangle is left out *)
Complete == Painting =>
    /\ (row < h /\ CY + yo + row < maxy /\ CY + yo + row >= miny => Painted \/ CY + yo > M)
    /\ WMax = Mn(w, maxx - X0)

Saturation ==
    /\ Painting =>
        /\ (Wrap <=> X + 1 + w + 2 >= maxx)
        /\ (~Wrap => X0 = X + 1)
    /\ NLy = Mn(M, y + NLh + 1)
    /\ (Y0 < maxy /\ maxy <= L => Y0 = CY + yo)

---------------------------------------------------------------------------
(* Clearing *)
CGuard == op = "clear" /\ maxy <= L /\ miny < maxy /\ maxx <= W /\ minx < maxx
CLo == minx \div 32
CHi == maxx \div 32
CInLo == 32 - (minx % 32)
CInHi == maxx % 32
ClearSafe ==
    CGuard /\ row >= miny /\ row < maxy =>
        LET base == row * WPL IN
        /\ base + CLo < FBSIZE /\ CLo < WPL
        /\ 32 - CInLo \in 0..31
        /\ (CLo = CHi => 32 - CInHi \in 0..31)
        /\ ((CInHi > 0 \/ Fault = "lastword") => 32 - CInHi \in 0..31 /\ CHi < WPL /\ base + CHi < FBSIZE)
        /\ CHi <= WPL

---------------------------------------------------------------------------
(* The picture of machine integers in traces: small ones as they are, those
   near the top at the same distance from MU, those near a power of two 2^b in
   between at the same distance from 5*10^8 + b*10^6. *)
Near == 400000
Low(v) == v <= 490000000
High(v) == v >= M - 400000000
At(v, p) == v >= p - Near /\ v <= p + Near
Mid(b) == 500000000 + b * 1000000
Proj(v) ==
    IF Low(v) THEN v ELSE IF High(v) THEN MU - (M - v)
    ELSE IF At(v, 2147483648) THEN Mid(31) + (v - 2147483648)
    ELSE IF At(v, 4294967296) THEN Mid(32) + (v - 4294967296)
    ELSE IF At(v, 8589934592) THEN Mid(33) + (v - 8589934592)
    ELSE IF At(v, 17179869184) THEN Mid(34) + (v - 17179869184)
    ELSE IF At(v, 1099511627776) THEN Mid(40) + (v - 1099511627776)
    ELSE IF At(v, 2199023255552) THEN Mid(41) + (v - 2199023255552)
    ELSE IF At(v, 281474976710656) THEN Mid(48) + (v - 281474976710656)
    ELSE IF At(v, 562949953421312) THEN Mid(49) + (v - 562949953421312)
    ELSE IF At(v, 4611686018427387904) THEN Mid(62) + (v - 4611686018427387904)
    ELSE IF At(v, 9223372036854775808) THEN Mid(63) + (v - 9223372036854775808)
    ELSE Mid(30) + (v - 1073741824)
(* the numbers that scenarios use *)
Used(v) ==
    \/ v <= 300000000 \/ v >= M - 1000
    \/ /\ v < M - 400000000
       /\ \/ v >= 1073741824 - 1000 /\ v <= 1073741824 + 1000
          \/ v >= 2147483648 - 1000 /\ v <= 2147483648 + 1000
          \/ v >= 4294967296 - 1000 /\ v <= 4294967296 + 1000
          \/ v >= 8589934592 - 1000 /\ v <= 8589934592 + 1000
          \/ v >= 1099511627776 - 1000 /\ v <= 1099511627776 + 1000
          \/ v >= 281474976710656 - 1000 /\ v <= 281474976710656 + 1000
          \/ v >= 4611686018427387904 - 1000 /\ v <= 4611686018427387904 + 1000
          \/ v >= 9223372036854775808 - 1000 /\ v <= 9223372036854775808 + 1000
SatU(n) == IF n > MU THEN MU ELSE n
(* the specification's newline and wrap on projected numbers *)
PNLy == SatU(SatU(Proj(y) + Mx(Proj(lh), 24)) + 1)
PWrap == SatU(Mx(Proj(x), minx) + 1 + w + 2) >= maxx
(* a cursor that is compared: Trace!Small; a sum of two numbers each past
   10^5 is not in the scenarios unless one of them is beyond all comparing *)
Small(v) == v < 600000000
Modest(v) == v <= 100000
Sums == Modest(y) \/ Modest(lh) \/ (~Low(y) /\ ~Low(lh)) \/ (y <= 200000000 /\ lh <= 200000000)
Projection ==
    Used(x) /\ Used(y) /\ Used(lh) /\ Sums =>
        /\ Guard => (PWrap <=> X + 1 + w + 2 >= maxx)
        \* a cursor that is compared is the right one
        /\ (Small(PNLy) => PNLy = Proj(NLy))
        /\ (~Small(PNLy) => NLy > L)
        /\ (PNLy <= L <=> NLy <= L)
(* order is kept: rectangles are only compared *)
Monotone ==
    Used(x) /\ Used(y) => (x < y <=> Proj(x) < Proj(y))
=============================================================================

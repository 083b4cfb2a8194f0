-------------------------------- MODULE Web --------------------------------
(***************************************************************************)
(* The page's repaint loop on a small memory: bytes of a frame buffer that *)
(* starts anywhere in the module's memory, lines padded to whole words,    *)
(* expanded bit by bit into a canvas whose rows are NOT padded.            *)
(*                                                                         *)
(* A byte has BB bits and a word four bytes, so BB = 1 makes words of 4    *)
(* bits stand for words of 32.  The canvas is a flat sequence of pixels;   *)
(* a store beyond its end is ignored (a clamped typed array does that).    *)
(* Bits past the visible width land on the first pixels of the next canvas *)
(* row, and are right only because the next line is painted later: Fault   *)
(* "bottomup" shows what happens otherwise.  The other faults are slips in *)
(* the index arithmetic or in assembling a word from its bytes.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS BB, Words, Lines, Px, Starts, Fault

VARIABLES mem, start, line, canvas
wv == <<mem, start, line, canvas>>

WB == 4 * BB
Bytes == Lines * Words * 4
Cells == Lines * Px
Bit(v, k) == (v \div 2^k) % 2

(* the module's memory: the buffer at start, all ones around it *)
ByteAt(a) == IF a >= start /\ a < start + Bytes THEN mem[a - start] ELSE 2^BB - 1
FbByte(k) == ByteAt((IF Fault = "start" THEN 0 ELSE start) + k)

WordAt(ln, w) ==
    LET index == (ln * Words * 4) + w * (IF Fault = "wordstep" THEN 1 ELSE 4)
        b(k) == FbByte(index + k)
    IN  IF Fault = "bigendian"
        THEN b(0) * 2^(3 * BB) + b(1) * 2^(2 * BB) + b(2) * 2^BB + b(3)
        ELSE b(3) * 2^(3 * BB) + b(2) * 2^(2 * BB) + b(1) * 2^BB + b(0)
BitAt(v, k) == IF Fault = "mirror" THEN Bit(v, WB - 1 - k) ELSE Bit(v, k)
Stride == IF Fault = "stride" THEN Words * WB ELSE Px
WordsShown == {w \in 0 .. Words - 1 : IF Fault = "lastword" THEN (w + 1) * WB <= Px ELSE w * WB < Px}

(* one line painted: later words and bits win, as they are painted later *)
Painted(cv, ln) ==
    [p \in 0 .. Cells - 1 |->
        LET hits == {q \in WordsShown \X (0 .. WB - 1) : ln * Stride + q[1] * WB + q[2] = p}
        IN  IF hits = {} THEN cv[p]
            ELSE LET q == CHOOSE q \in hits : \A r \in hits : r[1] * WB + r[2] <= q[1] * WB + q[2]
                 IN  BitAt(WordAt(ln, q[1]), q[2])]

NoInk == [p \in 0 .. Cells - 1 |-> 2]
Init == /\ mem \in [0 .. Bytes - 1 -> 0 .. 2^BB - 1]
        /\ start \in Starts
        /\ line = 0 /\ canvas = NoInk
ThisLine == IF Fault = "bottomup" THEN Lines - 1 - line ELSE line
Next == /\ line < Lines
        /\ canvas' = Painted(canvas, ThisLine)
        /\ line' = line + 1
        /\ UNCHANGED <<mem, start>>
Spec == Init /\ [][Next]_wv /\ WF_wv(Next)

Visible(y, x) == Bit(mem[(y * Words + x \div WB) * 4 + (x % WB) \div BB], (x % WB) % BB)
Shows == line = Lines => \A y \in 0 .. Lines - 1, x \in 0 .. Px - 1 : canvas[y * Px + x] = Visible(y, x)
(* while it runs, every finished line is already right *)
SoFar == \A y \in 0 .. line - 1, x \in 0 .. Px - 1 : canvas[y * Px + x] = Visible(y, x)
=============================================================================

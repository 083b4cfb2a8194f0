------------------------------ MODULE Blitstr ------------------------------
(***************************************************************************)
(* Pixel-level specification of the blitstr string painter.                *)
(*                                                                         *)
(* State:  a frame buffer (for each row, the set of x positions whose bit  *)
(* is 1, i.e. "clear"), a text cursor, and the paint_str call in progress  *)
(* (if any) with the position it has reached in its string.                *)
(*                                                                         *)
(* One action per grapheme cluster consumed by the call, as in the code's  *)
(* cluster loop: newline, glyph, glyph after a word wrap, replacement      *)
(* glyph, and the deliberate deviation "stall": with a rectangle that is   *)
(* not on the screen or has no width, the call gives up at the first       *)
(* character that is not a newline, leaving the cursor where it is.        *)
(*                                                                         *)
(* The module says nothing about words, shifts, hashes or tables: WordBlit *)
(* and Lookup are implementation-shaped refinements, checked against the   *)
(* operators defined here.                                                 *)
(*                                                                         *)
(* The font is a constant: Entries(set, cp) is the set of records          *)
(* [cps, g] of the clusters of a glyph set that begin with codepoint cp,   *)
(* Glyph(set, g) is a record [w, h, yo, rows], rows[k] being the set of    *)
(* inked columns 0..w-1 of the k-th row, MaxH(set) its line height.        *)
(***************************************************************************)
EXTENDS Layout, Sequences, FiniteSets, TLC

CONSTANTS
    NL,         \* the newline codepoint                (10)
    Unknown,    \* the replacement character            (65533)
    Entries(_, _), Glyph(_, _)

VARIABLES
    fb,         \* frame buffer: row -> set of x with bit 1 (rows may be absent: empty)
    cur,        \* cursor [x, y, lh]
    call        \* NoCall, or [clip, st, s, i]: next codepoint to consume is s[i]

vars == <<fb, cur, call>>

---------------------------------------------------------------------------
Styles == 0..2
NoCall == [op |-> "none"]

---------------------------------------------------------------------------
(* Segmentation: the longest listed cluster of the first glyph set that has
   one; failing that, one character is replaced. *)
StyleOf(n) == IF n \in Styles THEN n ELSE 1
LatinSet(st) == CASE st = 0 -> "Small" [] st = 1 -> "Regular" [] st = 2 -> "Bold"

IsAt(cps, s, i) == i + Len(cps) - 1 <= Len(s) /\ \A k \in 1..Len(cps) : cps[k] = s[i + k - 1]
Candidates(set, s, i) == {e \in Entries(set, s[i]) : IsAt(e.cps, s, i)}
Longest(C) == CHOOSE e \in C : \A d \in C : Len(d.cps) <= Len(e.cps)
TryFrom(order, s, i, st) ==
    LET first == {k \in 1..Len(order) : Candidates(order[k], s, i) /= {}}
    IN  IF first = {}
        THEN [set |-> LatinSet(st), g |-> (CHOOSE e \in Entries(LatinSet(st), Unknown) : e.cps = <<Unknown>>).g,
              n |-> 1, known |-> FALSE]
        ELSE LET k == CHOOSE k \in first : \A j \in first : k <= j
                 e == Longest(Candidates(order[k], s, i))
             IN  [set |-> order[k], g |-> e.g, n |-> Len(e.cps), known |-> TRUE]
Cluster(st, s, i) == TryFrom(<<"Emoji", LatinSet(st), "Hanzi">>, s, i, st)

RECURSIVE BoundsFrom(_, _, _)
BoundsFrom(st, s, i) ==
    IF i > Len(s) THEN {i}
    ELSE {i} \cup BoundsFrom(st, s, IF s[i] = NL THEN i + 1 ELSE i + Cluster(st, s, i).n)
(* positions at which a cluster starts, plus the end *)
Boundaries(st, s) == BoundsFrom(st, s, 1)

---------------------------------------------------------------------------
(* Actions *)
Painting == call /= NoCall
MoreText == Painting /\ call.i <= Len(call.s)
Consume(n) == call' = [call EXCEPT !.i = @ + n]

CallPaint(r, c, st, s) ==
    /\ ~Painting
    /\ call' = [op |-> "paint", clip |-> r, st |-> st, s |-> s, i |-> 1]
    /\ cur' = c
    /\ UNCHANGED fb

DoNewline ==
    /\ MoreText /\ call.s[call.i] = NL
    /\ cur' = NewlineCur(call.clip, cur)
    /\ Consume(1)
    /\ UNCHANGED fb

(* paint cluster record m = [set, g, n, known] *)
PaintCluster(m) ==
    LET g == Glyph(m.set, m.g)
        p == Place(call.clip, cur, g.w)
    IN  /\ fb' = XorRows(fb, Ink(call.clip, p, g))
        /\ cur' = Advance(p, g.w, m.set)
        /\ Consume(m.n)

Visible == MoreText /\ call.s[call.i] /= NL /\ Paintable(call.clip)
WidthOf(m) == Glyph(m.set, m.g).w
DoGlyph == Visible /\ \E m \in {Cluster(call.st, call.s, call.i)} :
              m.known /\ ~Wraps(call.clip, cur, WidthOf(m)) /\ PaintCluster(m)
DoWrapGlyph == Visible /\ \E m \in {Cluster(call.st, call.s, call.i)} :
              m.known /\ Wraps(call.clip, cur, WidthOf(m)) /\ PaintCluster(m)
DoReplacement == Visible /\ \E m \in {Cluster(call.st, call.s, call.i)} :
              ~m.known /\ PaintCluster(m)
(* the three previous actions in one, computing the cluster only once *)
DoCluster == Visible /\ \E m \in {Cluster(call.st, call.s, call.i)} : PaintCluster(m)

Stuck == MoreText /\ call.s[call.i] /= NL /\ ~Paintable(call.clip)
DoStall ==
    /\ Stuck
    /\ call' = NoCall
    /\ UNCHANGED <<fb, cur>>

DoReturn ==
    /\ Painting /\ call.i > Len(call.s)
    /\ call' = NoCall
    /\ UNCHANGED <<fb, cur>>

ClearRegion(r) ==
    /\ ~Painting
    /\ fb' = IF CanClear(r) THEN ClearRows(fb, r) ELSE fb
    /\ UNCHANGED <<cur, call>>

---------------------------------------------------------------------------
(* The same machine run to completion as an operator: the effect of one
   call on an empty frame buffer (paint is XOR, so this is the set of
   inverted pixels) and the cursor it leaves. *)
RECURSIVE RunFrom(_, _, _, _, _, _)
RunFrom(f, c, r, st, s, i) ==
    IF i > Len(s) THEN [rows |-> f, cur |-> c, i |-> i]
    ELSE IF s[i] = NL THEN RunFrom(f, TLCEval(NewlineCur(r, c)), r, st, s, i + 1)
    ELSE IF ~Paintable(r) THEN [rows |-> f, cur |-> c, i |-> i]
    ELSE LET m == Cluster(st, s, i)
             g == Glyph(m.set, m.g)
             p == Place(r, c, g.w)
         IN  RunFrom(TLCEval(XorRows(f, Ink(r, p, g))), TLCEval(Advance(p, g.w, m.set)), r, st, s, i + m.n)
Run(f, c, r, st, s) == RunFrom(f, c, r, st, s, 1)

HeightHint(st) == MaxH(LatinSet(st))
=============================================================================

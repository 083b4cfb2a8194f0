-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Behaviours of Blitstr with the real screen and font, for TLC to         *)
(* simulate and for the real library to follow: a history of paint and     *)
(* clear calls on one frame buffer, the cursor of one call carried into    *)
(* the next, with texts drawn from a token list and rectangles drawn so    *)
(* that edges matter.  Every finished call is printed with the effect the  *)
(* specification gives it; the driver then makes the same calls.           *)
(*                                                                         *)
(* fb holds the INKED pixels here (a cleared screen is empty), which       *)
(* changes nothing for painting and turns clearing into removal.           *)
(***************************************************************************)
EXTENDS DemoScript, FontTable

CONSTANTS Mix        \* which kind of history: "mixed", "narrow", "long", "clear"

VARIABLES
    n,          \* calls made
    ink0, cur0, \* screen and cursor before the call
    done,       \* the call just finished, to be reported
    acts        \* what happened in the call
gvars == <<fb, cur, call, n, ink0, cur0, done, acts>>

Tokens == JsonDeserialize(IOEnv.TOKENS)     \* sequence of codepoint sequences
(* (TLC evaluates constant expressions once: mentioning n prevents that) *)
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(p) == Pick(1..100) <= p

Longer == Mix = "long"
RECURSIVE Text(_)
Text(k) == IF k = 0 THEN <<>> ELSE Tokens[Pick(DOMAIN Tokens)] \o Text(k - 1)
SomeText == IF Chance(5) THEN <<>> ELSE Text(Pick(IF Longer THEN 10..60 ELSE 1..14))

Between(a, b) == IF a >= b THEN a ELSE Pick(a..b)
NarrowW == IF Mix = "narrow" THEN Pick(1..70) ELSE Pick(1..336)
(* a rectangle on the screen, however drawn *)
Fit(x0, y0, x1, y1) == MkRect(Min(x0, Width), Min(y0, Lines), Min(x1, Width), Min(y1, Lines))
SomeRect ==
    LET kind == Pick(1..12)
        x == Pick(0..330) y == Pick(0..500)
        w == NarrowW
        cx == Min(cur.x, 335) cy == Min(cur.y, 535)
    IN  CASE kind = 12 -> IF Chance(50) THEN FullScreen ELSE PaddedScreen
          [] kind = 11 -> IF Chance(25) THEN MkRect(Pick(0..400), Pick(0..600), Pick(0..400), Pick(0..600))
                          ELSE IF Chance(20) THEN MkRect(x, y, x, Pick(0..536))
                          ELSE MkRect(x, Pick(0..y), Width, Pick(y..536))
          [] kind = 10 -> \* the bottom edge runs through the current line
                          Fit(Pick(0..cx), Pick(0..cy), cx + w, cy + Pick(1..40))
          [] kind = 9  -> \* the top edge does
                          Fit(Pick(0..cx), cy + Pick(1..30), cx + w, Lines)
          [] kind = 8  -> \* the right edge is near: one more glyph or none
                          Fit(Pick(0..cx), Pick(0..cy), cx + Pick(1..40), cy + Pick(1..200))
          [] kind = 7  -> \* the left edge is right of the cursor
                          Fit(cx + Pick(0..60), Pick(0..cy), Width, Lines)
          [] kind = 6  -> \* word boundaries
                          Fit(32 * Pick(0..9), Pick(0..cy), 32 * Pick(1..10) + Pick(0..1), Pick(cy..536))
          [] OTHER     -> IF Longer THEN Fit(Pick(0..60), Pick(0..cy), Pick(150..336), Lines) ELSE Fit(x, y, x + w, Between(y, 536))
(* the cursor comes home before it sinks too low to be seen *)
Low(r) == cur.y >= r.y1 \/ cur.y > 520
SomeCursor(r) ==
    LET kind == Pick(1..12) IN
    CASE kind <= 6 -> IF Low(r) /\ Chance(85) THEN TopLeftOf(r) ELSE cur
      [] kind <= 8 -> TopLeftOf(r)
      [] kind = 9  -> MkCursor(Max(0, Min(r.x1, 400) - Pick(0..45)), Between(Min(r.y0, 600), Min(r.y1, 600)), Pick({0, 24, 30, 32}))
      [] kind = 10 -> \* just above the rectangle, so that its top edge crops
                      MkCursor(Min(r.x0, 400), Max(0, Min(r.y0, 600) - Pick(0..32)), 0)
      [] kind = 11 -> MkCursor(Pick(0..400), Pick(0..600), Pick({0, 0, 24, 30, 32, 100}))
      [] Chance(15) -> \* near a power of two (Trace: 2^b is 5*10^8 + b*10^6)
                      LET B == Pick({65536, 500000000 + 31 * 1000000, 500000000 + 32 * 1000000, 500000000 + 63 * 1000000})
                          k == Pick(1..3) v == Pick(0..340)
                      IN  MkCursor(IF k = 1 THEN B + v ELSE v, IF k = 2 THEN B + v ELSE v, IF k = 3 THEN B + Pick(0..40) ELSE 0)
      [] OTHER     -> IF Chance(30) THEN MkCursor(MaxU - Pick(0..50), Pick(0..536), Pick({0, MaxU - Pick(0..50)})) ELSE TopLeftOf(r)

GenInit == /\ fb = NoRows /\ ink0 = NoRows /\ cur = MkCursor(0, 0, 0) /\ cur0 = cur
           /\ call = NoCall /\ n = 0 /\ done = NoCall /\ acts = {}

Idle == ~Painting /\ done = NoCall
Choice == IF n = 0 THEN "paint" ELSE LET k == Pick(1..100) IN IF k <= 3 THEN "demo" ELSE IF k <= (IF Mix = "clear" THEN 55 ELSE 18) THEN "clear" ELSE "paint"
GenPaint ==
    \E r \in {SomeRect} : \E c \in {SomeCursor(r)} : \E s \in {SomeText} :
        /\ CallPaint(r, c, Pick(Styles), s) /\ cur0' = c
        /\ ink0' = fb /\ n' = n + 1 /\ acts' = {} /\ UNCHANGED done
GenClear ==
    /\ \E r \in {SomeRect} :
         /\ fb' = IF CanClear(r) THEN [y \in DOMAIN fb |-> IF y >= r.y0 /\ y < r.y1 THEN fb[y] \ Cols(r) ELSE fb[y]] ELSE fb
         /\ done' = [op |-> "clear", clip |-> r]
    /\ acts' = {"clear"}
    /\ ink0' = fb /\ n' = n + 1 /\ UNCHANGED <<cur, cur0, call>>
GenDemo ==
    /\ \E d \in {Pick({"sample_text", "short_greeting", "goose_poem"})} :
         fb' = PictureOf(d) /\ done' = [op |-> d, clip |-> FullScreen]
    /\ acts' = {"demo"}
    /\ ink0' = fb /\ n' = n + 1 /\ UNCHANGED <<cur, cur0, call>>
GenCall == Idle /\ \E k \in {Choice} : CASE k = "demo" -> GenDemo [] k = "clear" -> GenClear [] OTHER -> GenPaint

Was(what) == acts' = acts \cup what /\ UNCHANGED <<n, ink0, cur0, done>>
(* what else can be said of a glyph: the edges that crop it *)
Crops == LET m == Cluster(call.st, call.s, call.i)
             g == Glyph(m.set, m.g)
             r == call.clip
             p == Place(r, cur, g.w)
             top == SatAdd(p.y, g.yo)
         IN  (IF p.x + 1 + g.w > r.x1 /\ g.w > 0 THEN {"crop_right"} ELSE {})
             \cup (IF top < r.y0 /\ top + g.h > r.y0 THEN {"crop_top"} ELSE {})
             \cup (IF top < r.y1 /\ top + g.h > r.y1 THEN {"crop_bottom"} ELSE {})
             \cup (IF top + g.h <= r.y0 \/ top >= r.y1 THEN {"hidden"} ELSE {})
Silent == \/ DoNewline /\ Was({"newline"})
          \/ DoGlyph /\ Was({"glyph"} \cup Crops)
          \/ DoWrapGlyph /\ Was({"wrap"} \cup Crops)
          \/ DoReplacement /\ Was({"replacement"} \cup Crops)
Finish == (\/ DoStall /\ acts' = acts \cup {"stall"}
           \/ DoReturn /\ UNCHANGED acts) /\ done' = call /\ UNCHANGED <<n, ink0, cur0>>

Toggled == {y \in DOMAIN fb \cup DOMAIN ink0 : Row(fb, y) /= Row(ink0, y)}
Four(r) == <<r.x0, r.y0, r.x1, r.y1>>
Three(c) == <<c.x, c.y, c.lh>>
Record ==
    [n |-> n, op |-> done.op, clip |-> Four(done.clip),
     st |-> IF done.op = "paint" THEN done.st ELSE 0, s |-> IF done.op = "paint" THEN done.s ELSE <<>>,
     cur |-> Three(cur0), post |-> Three(cur),
     rows |-> [y \in Toggled |-> SymDiff(Row(fb, y), Row(ink0, y))], acts |-> acts]
Report == /\ done /= NoCall
          /\ PrintT(ToJson(Record))
          /\ done' = NoCall /\ UNCHANGED <<fb, cur, call, n, ink0, cur0, acts>>

GenNext == GenCall \/ Silent \/ Finish \/ Report
GenSpec == GenInit /\ [][GenNext]_gvars

(* the invariants of the small model, on these behaviours *)
GContainment == Painting => \A y \in Toggled :
    OnScreen(call.clip) /\ y >= call.clip.y0 /\ y < call.clip.y1 /\ SymDiff(Row(fb, y), Row(ink0, y)) \subseteq Cols(call.clip)
GOnScreen == \A y \in DOMAIN fb : y \in 0 .. Lines - 1 /\ fb[y] \subseteq 0 .. Width - 1
GConsumed == Painting => call.i <= Len(call.s) + 1
=============================================================================

----------------------------- MODULE MCBlitstr -----------------------------
(***************************************************************************)
(* Exhaustive small instance of Blitstr: a 12 x 9 screen with 16 pixels    *)
(* per row, a font with emoji, three Latin sets and ideographs (zero-width *)
(* and oversized glyphs, multi-codepoint clusters, a cluster that two sets *)
(* share), all strings up to a length, all rectangles and cursors from a   *)
(* grid that includes invalid and saturated ones, and a short history of   *)
(* calls.  Each listed property of a call is an invariant or an action     *)
(* property here; ghost variables remember how the call started.           *)
(***************************************************************************)
EXTENDS Blitstr

CONSTANTS
    MaxLen,      \* longest string
    MaxCalls,    \* calls in a history
    Rich         \* TRUE: the larger grids

VARIABLES
    fb0, cur0,   \* when the current (or last) call started
    inks,        \* ink of every glyph painted by it, with the line it is on
    line,        \* lines started by it
    n,           \* calls so far
    last         \* the last finished call
mcvars == <<fb, cur, call, fb0, cur0, inks, line, n, last>>

---------------------------------------------------------------------------
(* A tiny font.  Codepoints: 0 newline, 9 replacement, 1 2 Latin, 3 hanzi,
   5 emoji, 6 joiner, 7 combining mark, 8 unknown. *)
G(w, h, yo, rows) == [w |-> w, h |-> h, yo |-> yo, rows |-> rows]
FontGlyphs ==
    [Emoji   |-> <<G(3, 2, 0, <<{0, 1, 2}, {0, 2}>>), G(4, 3, 0, <<{0, 3}, {1, 2}, {0, 1, 2, 3}>>), G(2, 1, 2, <<{0, 1}>>)>>,
     Small   |-> <<G(1, 1, 1, <<{0}>>), G(2, 2, 0, <<{0}, {1}>>), G(1, 2, 0, <<{0}, {0}>>), G(0, 0, 0, <<>>)>>,
     Regular |-> <<G(2, 1, 1, <<{0, 1}>>), G(2, 3, 0, <<{0}, {1}, {0}>>), G(1, 3, 0, <<{0}, {0}, {0}>>), G(0, 0, 0, <<>>)>>,
     Bold    |-> <<G(3, 1, 1, <<{0, 1, 2}>>), G(3, 3, 0, <<{0}, {1}, {0, 2}>>), G(2, 3, 0, <<{0}, {0}, {0, 1}>>), G(0, 0, 0, <<>>)>>,
     Hanzi   |-> <<G(4, 4, 0, <<{0, 3}, {}, {}, {0, 3}>>)>>]
LatinIndex == {[cps |-> <<1>>, g |-> 1], [cps |-> <<2>>, g |-> 2], [cps |-> <<1, 7>>, g |-> 2], [cps |-> <<9>>, g |-> 3], [cps |-> <<4>>, g |-> 4]}
FontIndex ==
    [Emoji |-> {[cps |-> <<5>>, g |-> 1], [cps |-> <<5, 6, 5>>, g |-> 2], [cps |-> <<2, 6>>, g |-> 3], [cps |-> <<5, 7>>, g |-> 1]},
     Small |-> LatinIndex, Regular |-> LatinIndex, Bold |-> LatinIndex,
     Hanzi |-> {[cps |-> <<3>>, g |-> 1]}]
MEntries(set, cp) == {e \in FontIndex[set] : e.cps[1] = cp}
MGlyph(set, g) == FontGlyphs[set][g]
MMaxH(set) == CASE set = "Small" -> 2 [] set \in {"Regular", "Bold"} -> 3 [] OTHER -> 4

Alphabet == {0, 1, 2, 3, 4, 5, 6, 7, 8}
Strings == UNION {[1..k -> Alphabet] : k \in 0..MaxLen}
SmallAlphabet == {0, 1, 3, 5, 6, 8}

Rects ==
    {[x0 |-> x[1], y0 |-> y[1], x1 |-> x[2], y1 |-> y[2]] :
        x \in {<<0, 12>>, <<3, 9>>, <<2, 4>>, <<5, 6>>} \cup (IF Rich THEN {<<4, 12>>, <<6, 3>>, <<1, 13>>, <<0, 1>>} ELSE {<<6, 3>>, <<1, 13>>}),
        y \in {<<0, 9>>, <<2, 5>>} \cup (IF Rich THEN {<<4, 4>>, <<7, 9>>, <<3, 10>>, <<5, 4>>} ELSE {<<4, 4>>})}
Cursors ==
    {MkCursor(x, y, lh) : x \in {0, 4, 8} \cup (IF Rich THEN {3, 7, 12, MaxU - 1, MaxU} ELSE {MaxU}),
                          y \in {0, 3} \cup (IF Rich THEN {1, 6, MaxU - 2, MaxU} ELSE {MaxU - 1}),
                          lh \in {0, 3} \cup (IF Rich THEN {1, 5, MaxU} ELSE {})}
Checker == [y \in 0 .. Lines - 1 |-> {x \in 0 .. RowPx - 1 : (x + y) % 2 = 0}]

---------------------------------------------------------------------------
MCInit ==
    /\ fb \in {NoRows, Checker} /\ fb0 = fb
    /\ cur = MkCursor(0, 0, 0) /\ cur0 = cur
    /\ call = NoCall /\ inks = <<>> /\ line = 0 /\ n = 0 /\ last = NoCall

Start == /\ n < MaxCalls
         /\ \E r \in Rects, c \in (IF n = 0 THEN Cursors ELSE {cur}), st \in Styles, s \in Strings : CallPaint(r, c, st, s)
         /\ fb0' = fb /\ cur0' = cur' /\ inks' = <<>> /\ line' = 0 /\ n' = n + 1 /\ UNCHANGED last

Inkset(f) == UNION {{<<x, y>> : x \in f[y]} : y \in DOMAIN f}
Toggled(f, g) == UNION {{<<x, y>> : x \in SymDiff(Row(f, y), Row(g, y))} : y \in DOMAIN f \cup DOMAIN g}
Ghost(newline) ==
    /\ line' = IF newline THEN line + 1 ELSE line
    /\ inks' = IF fb' = fb THEN inks ELSE Append(inks, [line |-> line', ink |-> Toggled(fb, fb')])
    /\ UNCHANGED <<fb0, cur0, n, last>>

MCNewline == DoNewline /\ Ghost(TRUE)
MCGlyph == DoGlyph /\ Ghost(FALSE)
MCWrap == DoWrapGlyph /\ Ghost(TRUE)
MCReplacement == DoReplacement /\ Ghost(cur'.y /= cur.y)
MCStall == DoStall /\ last' = call /\ UNCHANGED <<fb0, cur0, inks, line, n>>
MCReturn == DoReturn /\ last' = call /\ UNCHANGED <<fb0, cur0, inks, line, n>>
MCClear == /\ n < MaxCalls
           /\ \E r \in Rects : ClearRegion(r) /\ last' = [op |-> "clear", clip |-> r]
           /\ fb0' = fb /\ n' = n + 1 /\ UNCHANGED <<cur0, inks, line>>
MCIdle == ~Painting /\ n = MaxCalls /\ UNCHANGED mcvars
MCNext == Start \/ MCNewline \/ MCGlyph \/ MCWrap \/ MCReplacement \/ MCStall \/ MCReturn \/ MCClear \/ MCIdle
MCSpec == MCInit /\ [][MCNext]_mcvars

---------------------------------------------------------------------------
IsPaint == last /= NoCall /\ last.op = "paint" /\ ~Painting
IsClear == last /= NoCall /\ last.op = "clear" /\ ~Painting

TypeOK == /\ \A y \in DOMAIN fb : y \in 0 .. Lines - 1 /\ fb[y] \subseteq 0 .. RowPx - 1
          /\ cur.x \in 0 .. MaxU /\ cur.y \in 0 .. MaxU /\ cur.lh \in 0 .. MaxU

(* C01 *)
Containment == Painting => Toggled(fb0, fb) \subseteq InkRange(call.clip)
(* C02 *)
ClearExact == IsClear => LET r == last.clip IN
    Inkset(fb) = Inkset(fb0) \cup IF OnScreen(r) /\ NonEmpty(r) THEN Cols(r) \X (r.y0 .. r.y1 - 1) ELSE {}
(* C03: a call in progress can always take a step, every step consumes text
   or ends the call *)
Total == Painting => ENABLED (DoNewline \/ DoCluster \/ DoStall \/ DoReturn)
Progress == [][Painting => call' = NoCall \/ call'.i > call.i]_mcvars
(* exactly one of the actions applies *)
Choices == <<ENABLED DoNewline, ENABLED DoGlyph, ENABLED DoWrapGlyph, ENABLED DoReplacement, ENABLED DoStall, ENABLED DoReturn>>
Deterministic == Painting => Cardinality({k \in 1..6 : Choices[k]}) = 1
(* C06: nothing is lost, repeated or invented *)
Segmented == IsPaint /\ Paintable(last.clip) => last.i = Len(last.s) + 1
GreedyLongest == Painting /\ call.i <= Len(call.s) /\ call.s[call.i] /= NL =>
    LET m == Cluster(call.st, call.s, call.i)
        here(set) == {k \in 1..3 : \E e \in FontIndex[set] : e.cps = SubSeq(call.s, call.i, Min(call.i + k - 1, Len(call.s))) /\ Len(e.cps) = k}
        order == <<"Emoji", LatinSet(call.st), "Hanzi">>
    IN  IF \E j \in 1..3 : here(order[j]) /= {}
        THEN LET j == CHOOSE j \in 1..3 : here(order[j]) /= {} /\ \A q \in 1 .. j - 1 : here(order[q]) = {}
             IN  m.set = order[j] /\ m.n \in here(order[j]) /\ \A q \in here(order[j]) : q <= m.n
        ELSE m.set = LatinSet(call.st) /\ m.n = 1 /\ m.g = 3
(* C07 *)
Reaches(r, c, w) == Max(c.x, r.x0) + w + 3 >= r.x1
Advancing == [][
    /\ (MCGlyph \/ MCWrap \/ MCReplacement =>
          LET m == Cluster(call.st, call.s, call.i)
              w == MGlyph(m.set, m.g).w
          IN IF Reaches(call.clip, cur, w)
             THEN /\ cur'.x = call.clip.x0 + w + 3
                  /\ cur'.y = Min(MaxU, cur.y + Max(cur.lh, 2) + 1)
                  /\ cur'.lh = MMaxH(m.set)
             ELSE /\ cur'.x = Max(cur.x, call.clip.x0) + w + 3
                  /\ cur'.y = cur.y
                  /\ cur'.lh = Max(cur.lh, MMaxH(m.set)))
    /\ (MCNewline => cur' = MkCursor(call.clip.x0, Min(MaxU, cur.y + Max(cur.lh, 2) + 1), 0))
    ]_mcvars
(* C08: a glyph stays short of the right edge, or starts a line of its own *)
NoReach == [][MCGlyph \/ MCReplacement \/ MCWrap =>
    LET w == MGlyph(Cluster(call.st, call.s, call.i).set, Cluster(call.st, call.s, call.i).g).w IN
    \/ cur'.x < call.clip.x1
    \/ cur'.x = call.clip.x0 + w + 3]_mcvars
WrapsOnlyIfNeeded == [][MCWrap => Reaches(call.clip, cur, WidthOf(Cluster(call.st, call.s, call.i)))]_mcvars

(* The machine and its big-step operator agree (C10: whatever is on screen) *)
Effect(r, c, st, s) == Run(NoRows, c, r, st, s)
PureXor == IsPaint =>
    LET e == Effect(last.clip, cur0, last.st, last.s) IN
    /\ Toggled(fb0, fb) = Inkset(e.rows) /\ cur = e.cur
Twice == IsPaint =>
    LET e == Run(fb, cur0, last.clip, last.st, last.s) IN SameRows(e.rows, fb0)
(* C09 *)
Sub(s, a, b) == SubSeq(s, a, b)
Split == IsPaint /\ OnScreen(last.clip) /\ NonEmpty(last.clip) =>
    \A k \in Boundaries(last.st, last.s) :
        LET a == Effect(last.clip, cur0, last.st, Sub(last.s, 1, k - 1))
            b == Run(a.rows, a.cur, last.clip, last.st, Sub(last.s, k, Len(last.s)))
        IN  Inkset(b.rows) = Toggled(fb0, fb) /\ b.cur = cur
(* C11 *)
NoLatin(s) == \A i \in Boundaries(1, s) \ {Len(s) + 1} : s[i] = NL \/ Cluster(1, s, i).set \in {"Emoji", "Hanzi"}
StyleFree == IsPaint /\ NoLatin(last.s) =>
    \A st \in Styles : LET e == Effect(last.clip, cur0, st, last.s) IN Inkset(e.rows) = Toggled(fb0, fb) /\ e.cur = cur
EmojiAlways == IsPaint => \A i \in Boundaries(last.st, last.s) \ {Len(last.s) + 1} :
    last.s[i] /= NL /\ Candidates("Emoji", last.s, i) /= {} =>
        \A st \in Styles : Cluster(st, last.s, i).set = "Emoji"
(* C12 *)
Xs(p) == {q[1] : q \in p}
Ys(p) == {q[2] : q \in p}
Disjoint == \A j \in DOMAIN inks : \A i \in 1 .. j - 1 :
    \/ inks[i].ink = {} \/ inks[j].ink = {}
    \/ IF inks[i].line = inks[j].line
       THEN \A a \in Xs(inks[i].ink), b \in Xs(inks[j].ink) : b >= a + 4
       ELSE \A a \in Ys(inks[i].ink), b \in Ys(inks[j].ink) : b > a
(* C13 *)
MaskOnly == IsPaint /\ OnScreen(last.clip) /\ NonEmpty(last.clip) =>
    \A y \in {<<0, 9>>, <<1, 4>>, <<3, 4>>, <<5, 9>>, <<8, 9>>} :
        LET r == [last.clip EXCEPT !.y0 = y[1], !.y1 = y[2]]
            e == Effect(r, cur0, last.st, last.s)
            both == Max(y[1], last.clip.y0) .. Min(y[2], last.clip.y1) - 1
        IN  /\ e.cur = cur
            /\ {q \in Inkset(e.rows) : q[2] \in both} = {q \in Toggled(fb0, fb) : q[2] \in both}
(* C21: the effect is a function of the arguments *)
Function == IsPaint => Toggled(fb0, fb) = Inkset(Effect(last.clip, cur0, last.st, last.s).rows)

(* C15 *)
HintIsLineHeight == IsPaint /\ Paintable(last.clip) /\ cur0.lh = 0 /\ last.s /= <<>>
                    /\ (\A i \in DOMAIN last.s : last.s[i] \in {1, 4, 8})  =>
    cur.lh = HeightHint(last.st)

(* teeth: states the model must reach (checked as violated invariants) *)
NeverWraps == ~(IsPaint /\ line > 1)
NeverStalls == ~(IsPaint /\ last.i <= Len(last.s))
NeverReplaces == ~(IsPaint /\ 8 \in {last.s[i] : i \in DOMAIN last.s} /\ Toggled(fb0, fb) /= {})
NeverCropped == ~(IsPaint /\ last.clip.x1 - last.clip.x0 = 2 /\ Toggled(fb0, fb) /= {})
=============================================================================

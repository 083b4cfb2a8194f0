------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: is a recorded execution of the real library a         *)
(* behaviour of Blitstr, as far as property PROP is concerned?             *)
(*                                                                         *)
(* The trace (IOEnv.TRACE, ndjson) has one event per public call, recorded *)
(* at its return, with arguments, the cursor it left, and the exact set of *)
(* frame-buffer bits it inverted (all 352 bits of all 536 rows are         *)
(* compared by the recorder, padding included).  A "paint" event is        *)
(* explained by silent steps of the specification, one per cluster, run    *)
(* from an empty frame buffer (so that fb is the set of inverted pixels),  *)
(* and then compared.  "rel" events relate earlier recorded events to each *)
(* other (same effect, split, mask, overlap).                              *)
(***************************************************************************)
EXTENDS DemoScript, FontTable

VARIABLES
    l,          \* line of the trace being explained
    bad,        \* {} until a line contradicts the property
    screen,     \* in a tracked history: the whole frame buffer
    demo        \* demo screen in progress: [k, clip] (k = 0: none)
tvars == <<fb, cur, call, l, bad, screen, demo>>

Tr == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

---------------------------------------------------------------------------
Rect4(q) == [x0 |-> q[1], y0 |-> q[2], x1 |-> q[3], y1 |-> q[4]]
Cur3(q) == [x |-> q[1], y |-> q[2], lh |-> q[3]]
(* observed change: sequence of <<first row, last row, runs>> *)
Delta(e) == LET d == e.delta IN TLCEval(
    [y \in UNION {d[k][1] .. d[k][2] : k \in DOMAIN d} |->
        RunSet(d[CHOOSE k \in DOMAIN d : d[k][1] <= y /\ y <= d[k][2]][3])])
(* The specification leaves a cursor that has run into the largest integer to
   the implementation; everything short of that is compared exactly, except
   from a place that the recording could only call "in between". *)
Told(v) == v < 490000000 \/ (v < 600000000 /\ v % 1000000 # 400001)
Small(c) == Told(c.x) /\ Told(c.y) /\ Told(c.lh)

Ev == Tr[l]
Contained(e) ==
    LET r == Rect4(e.clip) d == Delta(e) IN
    \A y \in DOMAIN d : d[y] = {} \/ (OnScreen(r) /\ NonEmpty(r) /\ y >= r.y0 /\ y < r.y1 /\ d[y] \subseteq Cols(r))

SameInk(e) == SameRows(fb, Delta(e))
SameCur(e) == Small(cur) /\ Small(Cur3(e.cur)) => cur = Cur3(e.post)

InkProps == {"C04", "C05", "C11", "C16", "C19"}
CurProps == {"C07", "C15"}
BothProps == {"C06", "C08", "C20", "ALL"}

(* What each property demands of a returned paint call, given the state the
   specification has reached for the same arguments. *)
PaintHolds(e) ==
    CASE Prop = "C01" -> e.ok => Contained(e)
      [] Prop = "C03" -> e.ok
      [] Prop \in InkProps -> e.ok /\ SameInk(e)
      [] Prop \in CurProps -> e.ok /\ SameCur(e)
      [] Prop \in BothProps -> e.ok /\ SameInk(e) /\ SameCur(e)
      [] OTHER -> TRUE

---------------------------------------------------------------------------
(* Clearing.  The background is the same 32-bit pattern in every word, or
   (in a tracked history) whatever the history has left there. *)
PatRow(p) == LET P == ToSet(p) IN {x \in 0 .. RowPx - 1 : (x % 32) \in P}
ClearHolds(e) ==
    LET r == Rect4(e.clip) IN
    CASE Prop \in {"C02", "ALL"} ->
            e.ok /\ LET d == Delta(e)
                        pr == PatRow(e.pat)
                    IN IF CanClear(r)
                       THEN \A y \in DOMAIN d \cup (r.y0 .. r.y1 - 1) :
                              Row(d, y) = IF y >= r.y0 /\ y < r.y1
                                          THEN Cols(r) \ (IF e.tracked THEN Row(screen, y) ELSE pr)
                                          ELSE {}
                       ELSE \A y \in DOMAIN d : d[y] = {}
      [] Prop = "C03" -> e.ok
      [] OTHER -> TRUE

---------------------------------------------------------------------------
(* Geometry and styles.  Machine integers come as three limbs, compared
   lexicographically, so that every 64-bit value is exact. *)
Leq3(p, q) == \/ p[1] < q[1]
              \/ p[1] = q[1] /\ (p[2] < q[2] \/ (p[2] = q[2] /\ p[3] <= q[3]))
Min3(p, q) == IF Leq3(p, q) THEN p ELSE q
Max3(p, q) == IF Leq3(p, q) THEN q ELSE p
Zero3 == <<0, 0, 0>>
Rect3(a) == <<Min3(a[1], a[3]), Min3(a[2], a[4]), Max3(a[1], a[3]), Max3(a[2], a[4])>>
AsSeq(r) == <<r.x0, r.y0, r.x1, r.y1>>
Stripes == {x \in 0 .. RowPx - 1 : x % 32 >= 16}

GeomHolds(e) ==
    IF Prop \notin {"C14", "C03", "ALL"} THEN TRUE ELSE
    e.ok /\ (Prop /= "C03" =>
    CASE e.k = "rect" -> e.got = Rect3(e.a)
      [] e.k = "cursor" -> e.got = e.a /\ e.pt = <<e.a[1], e.a[2]>>
      [] e.k = "topleft" -> e.got = <<e.a[1], e.a[2], Zero3>>
      [] e.k = "screen" -> /\ e.full = AsSeq(FullScreen) /\ e.padded = AsSeq(PaddedScreen)
                           /\ e.const = <<Width, Lines, RowPx \div 32, Lines * (RowPx \div 32)>>
                           /\ Len(e.rows) = Lines
                           /\ \A y \in DOMAIN e.rows : RunSet(e.rows[y]) = Stripes
      [] e.k = "eq" -> LET same(n) == \A k \in 1..n : e.a[k] = e.b[k] IN
                       /\ e.pt = same(2) /\ e.cursor = same(3) /\ e.rect = same(4))
StyleHolds(e) ==
    CASE Prop \in {"C15", "ALL"} ->
            /\ e.ok /\ e.name = StyleOf(e.n) /\ e.back = e.name /\ e.cast = e.name
            /\ e.hint = HeightHint(e.name)
      [] Prop = "C03" -> e.ok
      [] OTHER -> TRUE

---------------------------------------------------------------------------
(* Relations between recorded events; e.ev lists earlier line numbers *)
At(n) == Tr[n]
AllOk(ns) == \A k \in DOMAIN ns : At(ns[k]).ok
SameArgs(a, b) ==
    /\ a.k = b.k
    /\ CASE a.k = "paint" -> a.clip = b.clip /\ a.cur = b.cur /\ a.st = b.st /\ a.s = b.s
         [] a.k = "clear" -> a.clip = b.clip /\ a.tracked = b.tracked /\ a.pat = b.pat
         [] a.k = "demo" -> a.name = b.name
SameEffect(a, b) ==
    CASE a.k = "paint" -> a.post = b.post /\ SameRows(Delta(a), Delta(b))
      [] a.k = "clear" -> SameRows(Delta(a), Delta(b))
      [] a.k = "demo" -> a.rows = b.rows

(* all listed events had the same arguments: they must have had the same effect *)
RelSame(e) ==
    LET ns == e.ev IN
    /\ \A k \in DOMAIN ns : SameArgs(At(ns[1]), At(ns[k]))
    /\ \A k \in DOMAIN ns : At(ns[k]).ok = At(ns[1]).ok
    /\ AllOk(ns) => \A k \in DOMAIN ns : SameEffect(At(ns[1]), At(ns[k]))

(* the listed events had the same arguments except for the style *)
RelStyle(e) ==
    LET ns == e.ev a == At(ns[1]) IN
    /\ AllOk(ns)
    /\ \A k \in DOMAIN ns : SameEffect(a, At(ns[k]))

RECURSIVE Cat(_, _)
Cat(ns, k) == IF k > Len(ns) THEN <<>> ELSE At(ns[k]).s \o Cat(ns, k + 1)
RECURSIVE XorDeltas(_, _)
XorDeltas(ns, k) == IF k > Len(ns) THEN NoRows ELSE XorRows(Delta(At(ns[k])), XorDeltas(ns, k + 1))
RECURSIVE Starts(_, _, _)
Starts(ns, k, i) == IF k > Len(ns) THEN {i} ELSE {i} \cup Starts(ns, k + 1, i + Len(At(ns[k]).s))

(* first event: whole string; the others: its pieces, chained by the cursor *)
IsSplit(e) ==
    LET w == At(e.ev[1]) ps == Tail(e.ev) IN
    /\ Cat(ps, 1) = w.s
    /\ Starts(ps, 1, 1) \subseteq Boundaries(w.st, w.s)
    /\ \A k \in DOMAIN ps :
         LET q == At(ps[k]) IN
         /\ q.clip = w.clip /\ q.st = w.st
         /\ q.ok => q.cur = IF k = 1 THEN w.cur ELSE At(ps[k - 1]).post
RelSplit(e) ==
    LET w == At(e.ev[1]) ps == Tail(e.ev) IN
    /\ IsSplit(e)
    /\ AllOk(e.ev)
    /\ w.post = At(ps[Len(ps)]).post
    /\ SameRows(Delta(w), XorDeltas(ps, 1))

(* the listed events differ only in the rectangle's top and bottom edges;
   the first one spans the whole screen height *)
RelMask(e) ==
    LET w == At(e.ev[1]) dw == Delta(w) IN
    /\ w.clip[2] = 0 /\ w.clip[4] = Lines
    /\ AllOk(e.ev)
    /\ \A k \in 2..Len(e.ev) :
         LET q == At(e.ev[k]) d == Delta(q) IN
         /\ q.clip[1] = w.clip[1] /\ q.clip[3] = w.clip[3] /\ q.cur = w.cur /\ q.st = w.st /\ q.s = w.s
         /\ q.post = w.post
         /\ \A y \in DOMAIN d \cup DOMAIN dw :
              IF y >= q.clip[2] /\ y < q.clip[4] THEN Row(d, y) = Row(dw, y) ELSE Row(d, y) = {}

(* first event: whole string; the others: its clusters one by one *)
InkedRows(d) == {y \in DOMAIN d : d[y] /= {}}
InkedCols(d) == UNION {d[y] : y \in DOMAIN d}
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : y >= x
RECURSIVE CountFrom(_, _)
CountFrom(ds, k) == IF k > Len(ds) THEN 0
                    ELSE LET d == ds[k] IN
                         LET S == UNION {{<<x, y>> : x \in d[y]} : y \in DOMAIN d} IN Cardinality(S) + CountFrom(ds, k + 1)
RelOverlap(e) ==
    LET w == At(e.ev[1])
        ps == Tail(e.ev)
        ds == [k \in DOMAIN ps |-> Delta(At(ps[k]))]
    IN  /\ IsSplit(e)
        /\ AllOk(e.ev)
        /\ \A j \in DOMAIN ps : \A i \in 1..(j - 1) :
             \/ InkedRows(ds[i]) = {} \/ InkedRows(ds[j]) = {}
             \/ IF At(ps[i]).post[2] = At(ps[j]).post[2]
                THEN SetMin(InkedCols(ds[j])) >= SetMax(InkedCols(ds[i])) + 4
                ELSE SetMin(InkedRows(ds[j])) > SetMax(InkedRows(ds[i]))
        /\ CountFrom(<<Delta(w)>>, 1) = CountFrom(ds, 1)

(* a style event, Latin text painted in that style on a fresh line, and the
   same followed by a newline *)
RelHint(e) ==
    LET h == At(e.ev[1]) p == At(e.ev[2]) q == At(e.ev[3]) IN
    /\ AllOk(e.ev)
    /\ h.name = p.st /\ p.cur[3] = 0 /\ p.st = q.st /\ q.s = Append(p.s, NL)
    /\ p.post[2] = p.cur[2] /\ p.post[3] = h.hint
    /\ q.post = <<q.clip[1], q.cur[2] + h.hint + 1, 0>>

RelHolds(e) ==
    CASE e.r = "same" -> RelSame(e)
      [] e.r = "style" -> RelStyle(e)
      [] e.r = "split" -> RelSplit(e)
      [] e.r = "mask" -> RelMask(e)
      [] e.r = "overlap" -> RelOverlap(e)
      [] e.r = "hint" -> RelHint(e)

---------------------------------------------------------------------------
(* A page showing a frame buffer: e.dark and e.clear are, per canvas row, the
   opaque dark and the fully transparent pixels *)
WebHolds(e) ==
    \/ Prop /= "C17"
    \/ /\ e.ok
       /\ Len(e.rows) = Lines /\ Len(e.dark) = Lines /\ Len(e.clear) = Lines
       /\ \A y \in 1..Lines :
            LET set == RunSet(e.rows[y]) \cap (0 .. Width - 1) IN
            /\ RunSet(e.clear[y]) = set
            /\ RunSet(e.dark[y]) = (0 .. Width - 1) \ set

(* A run of the font generator: e.dry lists the files that a run without the
   confirmation switch touched; e.first and e.second are what two confirmed
   runs wrote, as <<name, digest>> pairs; e.built says that a library with
   these files compiles. *)
GenHolds(e) ==
    \/ Prop \notin {"C18", "C19", "C20"}
    \/ e.ok /\ e.built /\ (Prop = "C18" => e.dry = <<>> /\ e.first /= <<>> /\ e.first = e.second)

(* A confirmed run of the font generator over flawed input: which sets were
   flawed how, how it ended and what became of the font files *)
Outcome == INSTANCE Outcome
FlawsSeen(e) == {<<e.flaws[k][1], e.flaws[k][2]>> : k \in DOMAIN e.flaws}
RegenHolds(e) ==
    \/ Prop /= "C23"
    \/ e.ok /\ Outcome!RightOutcome(FlawsSeen(e), e.exit, e.out)

---------------------------------------------------------------------------
Blank == NoRows
NoDemo == [k |-> 0, clip |-> MkRect(0, 0, 0, 0)]
TraceInit == /\ fb = Blank /\ cur = MkCursor(0, 0, 0) /\ call = NoCall
             /\ l = 1 /\ bad = {} /\ screen = NoRows /\ demo = NoDemo

Running == l <= Len(Tr)
NeedsSpec == Prop \in InkProps \cup CurProps \cup BothProps
Tracking == screen /= NoRows

(* skip the silent run when the property only concerns recorded values *)
Begin == /\ Running /\ Ev.k = "paint" /\ ~Painting /\ fb = Blank /\ NeedsSpec /\ Ev.ok
         /\ CallPaint(Rect4(Ev.clip), Cur3(Ev.cur), Ev.st, Ev.s)
         /\ UNCHANGED <<l, bad, screen, demo>>
Silent == Painting /\ call.i <= Len(call.s) /\ (DoNewline \/ DoCluster) /\ UNCHANGED <<l, bad, screen, demo>>

Verdict(ok) == bad' = IF ok THEN {} ELSE {Prop}
Next1 == l' = l + 1 /\ fb' = Blank /\ cur' = MkCursor(0, 0, 0) /\ call' = NoCall /\ demo' = NoDemo

Track == screen' = IF Tracking THEN XorRows(screen, Delta(Ev)) ELSE screen

Return == /\ Running /\ Ev.k = "paint"
          /\ \/ Painting /\ (call.i > Len(call.s) \/ Stuck)
             \/ ~Painting /\ ~(NeedsSpec /\ Ev.ok)
          /\ Verdict(PaintHolds(Ev))
          /\ Next1 /\ Track
Clear == Running /\ Ev.k = "clear" /\ Verdict(ClearHolds(Ev)) /\ Next1 /\ Track
Plain(k, ok) == Running /\ Ev.k \in k /\ Verdict(ok) /\ Next1 /\ UNCHANGED screen
Rel == Plain({"rel"}, RelHolds(Ev))
Geometry == Plain({"rect", "cursor", "topleft", "screen", "eq"}, GeomHolds(Ev))
Style == Plain({"style"}, StyleHolds(Ev))
Web == Plain({"web"}, WebHolds(Ev))
Gen == Plain({"gen"}, GenHolds(Ev))
Regen == Plain({"regen"}, RegenHolds(Ev))

(* A snapshot opens a tracked history, or closes it: the calls in between
   must account for everything on the screen. *)
SnapRows == [y \in 0 .. Lines - 1 |-> RunSet(Ev.rows[y + 1])]
Snap == /\ Running /\ Ev.k = "snap"
        /\ Verdict(Tracking => SameRows(screen, SnapRows))
        /\ Next1
        /\ screen' = IF Tracking THEN NoRows ELSE SnapRows

(* Demo screens.  fb here holds the *inked* pixels: a cleared screen is
   empty, whatever was there before, and painting inverts as always. *)
Steps == Script(Ev.name)
InDemo == Running /\ Ev.k = "demo" /\ Prop \in {"C16", "C17", "ALL"} /\ Ev.ok
DemoNext == demo' = [demo EXCEPT !.k = @ + 1]
DemoStep ==
    /\ InDemo /\ ~Painting /\ demo.k < Len(Steps)
    /\ UNCHANGED <<l, bad, screen>>
    /\ LET s == Steps[demo.k + 1] IN
       CASE s.op = "clear" -> fb' = NoRows /\ DemoNext /\ UNCHANGED <<cur, call>>
         [] s.op = "home" -> /\ demo' = [k |-> demo.k + 1, clip |-> PaddedScreen]
                             /\ cur' = TopLeftOf(PaddedScreen) /\ UNCHANGED <<fb, call>>
         [] s.op = "box" -> /\ demo' = [k |-> demo.k + 1, clip |-> BoxBelow(demo.clip, cur)]
                            /\ UNCHANGED <<fb, cur, call>>
         [] s.op = "paint" -> CallPaint(demo.clip, cur, s.st, s.s) /\ DemoNext
DemoCallDone == InDemo /\ DoReturn /\ UNCHANGED <<l, bad, screen, demo>>
DemoHolds(e) ==
    CASE Prop \in {"C16", "C17", "ALL"} ->
            /\ e.ok /\ e.padpre = e.padpost
            /\ \A y \in 0 .. Lines - 1 :
                 RunSet(e.rows[y + 1]) = (0 .. Width - 1) \ Row(fb, y)
      [] Prop = "C03" -> e.ok
      [] OTHER -> TRUE
(* (the visible part of a tracked screen is what the demo left there) *)
DemoEnd == /\ Running /\ Ev.k = "demo" /\ ~Painting /\ (~InDemo \/ demo.k = Len(Steps))
           /\ Verdict(DemoHolds(Ev)) /\ Next1
           /\ screen' = IF Tracking THEN [y \in 0 .. Lines - 1 |-> RunSet(Ev.rows[y + 1]) \cup (Row(screen, y) \ (0 .. Width - 1))] ELSE screen

Done == ~Running /\ PrintT("trace consumed") /\ UNCHANGED tvars
TraceNext == bad = {} /\ (Begin \/ Silent \/ Return \/ Clear \/ Rel \/ Geometry \/ Style \/ Web \/ Gen \/ Regen
                          \/ Snap \/ DemoStep \/ DemoCallDone \/ DemoEnd \/ Done)
TraceSpec == TraceInit /\ [][TraceNext]_tvars

NoViolation == bad = {}
Brief == [l |-> l, bad |-> bad]    \* what an error trace shows
(* The one behaviour of a trace never repeats this; two states that agree in
   it would be mistaken for one, so Done also has to be reached. *)
Progress == <<l, bad, Painting, IF Painting THEN call.i ELSE 0, demo.k>>
(* Deadlock checking is on: a trace that gets stuck before its last line
   (only Done stutters) is reported, so acceptance means full consumption. *)
=============================================================================

------------------------------ MODULE MCDemo ------------------------------
(***************************************************************************)
(* The demo screens with the real font: every sequence of MaxDemos of      *)
(* them, over several backgrounds, run call by call.  fb holds the INKED   *)
(* pixels here (bit 0), padding included: clearing removes ink, painting   *)
(* inverts it.  Clearing first is what makes the outcome independent of    *)
(* the background: Fault "noclear" leaves it out, "padded" clears the      *)
(* padded screen only.                                                     *)
(***************************************************************************)
EXTENDS DemoScript, FontTable

CONSTANTS MaxDemos, Fault

VARIABLES name, k, clip, n, before
dv == <<fb, cur, call, name, k, clip, n, before>>

Names == {"sample_text", "short_greeting", "goose_poem"}
Steps == Script(name)
Screen == 0 .. Lines - 1
Backs == [cleared |-> [y \in Screen |-> {}],
          blank |-> [y \in Screen |-> (0 .. Width - 1) \cup {336, 351}],
          checker |-> [y \in Screen |-> {x \in 0 .. Width : (x + y) % 2 = 0}],
          edges |-> [y \in Screen |-> IF y \in {0, Lines - 1} THEN 0 .. Width ELSE {0, Width - 1}]]
Pad(f) == [y \in Screen |-> Row(f, y) \cap (Width .. RowPx - 1)]
Clear(r) == fb' = [y \in Screen |-> IF y >= r.y0 /\ y < r.y1 THEN Row(fb, y) \ Cols(r) ELSE Row(fb, y)] /\ UNCHANGED <<cur, call>>

Init == /\ \E b \in DOMAIN Backs : fb = Backs[b]
        /\ cur = MkCursor(0, 0, 0) /\ call = NoCall /\ name = "none" /\ k = 0 /\ n = 0
        /\ clip = FullScreen /\ before = Pad(fb)
Begin == /\ name = "none" /\ n < MaxDemos
         /\ name' \in Names /\ k' = 0 /\ n' = n + 1
         /\ UNCHANGED <<fb, cur, call, clip, before>>
Step ==
    /\ name /= "none" /\ ~Painting /\ k < Len(Steps)
    /\ k' = k + 1
    /\ UNCHANGED <<name, n, before>>
    /\ LET s == Steps[k + 1] IN
       CASE s.op = "clear" -> /\ IF Fault = "noclear" THEN UNCHANGED <<fb, cur, call>>
                                 ELSE Clear(IF Fault = "padded" THEN PaddedScreen ELSE FullScreen)
                              /\ UNCHANGED clip
         [] s.op = "home" -> clip' = PaddedScreen /\ cur' = TopLeftOf(PaddedScreen) /\ UNCHANGED <<fb, call>>
         [] s.op = "box" -> clip' = BoxBelow(clip, cur) /\ UNCHANGED <<fb, cur, call>>
         [] s.op = "paint" -> CallPaint(clip, cur, s.st, s.s) /\ UNCHANGED clip
Paint == (DoNewline \/ DoCluster \/ DoReturn) /\ UNCHANGED <<name, k, clip, n, before>>
End == /\ name /= "none" /\ ~Painting /\ k = Len(Steps)
       /\ name' = "none" /\ UNCHANGED <<fb, cur, call, k, clip, n, before>>
Rest == name = "none" /\ n = MaxDemos /\ UNCHANGED dv
Next == Begin \/ Step \/ Paint \/ End \/ Rest
Spec == Init /\ [][Next]_dv

Finished == name /= "none" /\ ~Painting /\ k = Len(Steps)
ShowsPicture == Finished => \E p \in {PictureOf(name)} : \A y \in Screen :
    Row(fb, y) \cap (0 .. Width - 1) = Row(p, y)
PaddingKept == Finished => Pad(fb) = before
(* nothing of a demo is replaced or stuck, and only the last box, which is
   there to show it, cuts text off at its bottom *)
NothingCut == Painting /\ call.i <= Len(call.s) =>
    /\ Paintable(call.clip)
    /\ cur.y + 32 <= call.clip.y1 \/ call.s[call.i] = NL \/ (name = "sample_text" /\ k = Len(Steps))
    /\ call.s[call.i] /= NL => Cluster(call.st, call.s, call.i).known
(* what the documentation's screenshots show, pixel by pixel *)
DocJson == JsonDeserialize(IOEnv.DOCPICS)
DocTab == [d \in DOMAIN DocJson |-> [y \in DOMAIN DocJson[d] |-> RunSet(DocJson[d][y])]]
DocRow(d, y) == LET t == ToString(y) IN IF t \in DOMAIN DocTab[d] THEN DocTab[d][t] ELSE {}
AsDocumented == Finished /\ name \in DOMAIN DocTab => \A y \in Screen :
    Row(fb, y) \cap (0 .. Width - 1) = DocRow(name, y)
(* all ink is in the padded screen *)
InPaddedScreen == Finished /\ n = 1 => \A p \in {PictureOf(name)} : \A y \in DOMAIN p :
    p[y] = {} \/ (y >= 6 /\ y < Lines - 6 /\ p[y] \subseteq 6 .. Width - 7)
=============================================================================

---------------------------- MODULE DemoScript ----------------------------
(***************************************************************************)
(* The three demo screens as scripts of calls, transcribed from their      *)
(* documentation: what is cleared, where the text goes, which style, which *)
(* text.  Texts are codepoint sequences.                                   *)
(***************************************************************************)
EXTENDS Blitstr

(* Hello, world! \xe4a\u0308 \U0001f004\U0001f0cf\U0001f170\U0001f170\ufe0f\n *)
Note ==
    <<72, 101, 108, 108, 111, 44, 32, 119, 111, 114, 108, 100, 33, 32, 228, 
      97, 776, 32, 126980, 127183, 127344, 127344, 65039, 10>>
(* \n   \U0001f34e       \U0001f3b8       \U0001f576        \U0001f34e\n *)
Sas1 ==
    <<10, 32, 32, 32, 127822, 32, 32, 32, 32, 32, 32, 32, 127928, 32, 32, 
      32, 32, 32, 32, 32, 128374, 32, 32, 32, 32, 32, 32, 32, 32, 127822, 
      10>>
(*  apple  guitar  glasses  apple\n\n *)
Sas2 ==
    <<32, 97, 112, 112, 108, 101, 32, 32, 103, 117, 105, 116, 97, 114, 32, 
      32, 103, 108, 97, 115, 115, 101, 115, 32, 32, 97, 112, 112, 108, 101, 
      10, 10>>
(*            \U0001f638     \U0001f3a9    \U0001f511\n *)
Sas3 ==
    <<32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 128568, 32, 32, 32, 32, 
      32, 127913, 32, 32, 32, 32, 128273, 10>>
(*            cat    hat    key\n\n *)
Sas4 ==
    <<32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 99, 97, 116, 32, 32, 32, 
      32, 104, 97, 116, 32, 32, 32, 32, 107, 101, 121, 10, 10>>
(* The quick brown fox jumps over the lazy dog. Zw\xf6lf Boxk\xe4mpfer jagen Viktor quer \xfcber den gro\xdfen Sylter Deich.\n *)
WrapText ==
    <<84, 104, 101, 32, 113, 117, 105, 99, 107, 32, 98, 114, 111, 119, 110, 
      32, 102, 111, 120, 32, 106, 117, 109, 112, 115, 32, 111, 118, 101, 114, 
      32, 116, 104, 101, 32, 108, 97, 122, 121, 32, 100, 111, 103, 46, 32, 
      90, 119, 246, 108, 102, 32, 66, 111, 120, 107, 228, 109, 112, 102, 101, 
      114, 32, 106, 97, 103, 101, 110, 32, 86, 105, 107, 116, 111, 114, 32, 
      113, 117, 101, 114, 32, 252, 98, 101, 114, 32, 100, 101, 110, 32, 103, 
      114, 111, 223, 101, 110, 32, 83, 121, 108, 116, 101, 114, 32, 68, 101, 
      105, 99, 104, 46, 10>>
(* Hello, world!\n *)
Hello1 ==
    <<72, 101, 108, 108, 111, 44, 32, 119, 111, 114, 108, 100, 33, 10>>
(* Hello, \U0001f638!\n *)
Hello2 ==
    <<72, 101, 108, 108, 111, 44, 32, 128568, 33, 10>>
(* \u9e45\u3001\u9e45\u3001\u9e45\uff0c\n\u66f2\u9879\u5411\u5929\u6b4c\u3002\n\u767d\u6bdb\u6d6e\u7eff\u6c34\uff0c\n\u7ea2\u638c\u62e8\u6e05\u6ce2\n *)
Poem ==
    <<40517, 12289, 40517, 12289, 40517, 65292, 10, 26354, 39033, 21521, 
      22825, 27468, 12290, 10, 30333, 27611, 28014, 32511, 27700, 65292, 10, 
      32418, 25484, 25320, 28165, 27874, 10>>

ClearAll == [op |-> "clear"]
(* the cursor goes to the top left corner of the padded screen, which becomes the rectangle *)
Home == [op |-> "home"]
(* the rectangle becomes a box below the cursor with wide margins *)
Box == [op |-> "box"]
Say(st, text) == [op |-> "paint", st |-> st, s |-> text]

Script(name) ==
    CASE name = "sample_text" ->
            <<ClearAll, Home,
              Say(2, Note), Say(1, Note), Say(0, Note),
              Say(1, Sas1), Say(1, Sas2), Say(1, Sas3), Say(1, Sas4),
              Say(1, WrapText), Box, Say(0, WrapText)>>
      [] name = "short_greeting" -> <<ClearAll, Home, Say(1, Hello1), Say(1, Hello2)>>
      [] name = "goose_poem" -> <<ClearAll, Home, Say(1, Poem)>>

BoxBelow(r, c) == MkRect(r.x0 + 30, c.y + 12, r.x1 - 40, r.y1 - 8)

(* the ink of a demo, computed at one go from its script *)
RECURSIVE Drawn(_, _, _, _, _)
Drawn(ss, j, f, c, r) ==
    IF j > Len(ss) THEN f
    ELSE LET s == ss[j] IN
         CASE s.op = "clear" -> Drawn(ss, j + 1, NoRows, c, r)
           [] s.op = "home" -> Drawn(ss, j + 1, f, TLCEval(TopLeftOf(PaddedScreen)), PaddedScreen)
           [] s.op = "box" -> Drawn(ss, j + 1, f, c, TLCEval(BoxBelow(r, c)))
           [] s.op = "paint" -> LET e == TLCEval(Run(f, c, r, s.st, s.s)) IN Drawn(ss, j + 1, e.rows, e.cur, r)
PictureOf(d) == TLCEval(Drawn(Script(d), 1, NoRows, MkCursor(0, 0, 0), FullScreen))
=============================================================================

----------------------------- MODULE FontFacts -----------------------------
(***************************************************************************)
(* What the other modules assume about the font constants, checked on all  *)
(* of them: one state per glyph and per cluster of the five glyph sets.    *)
(* (Arith assumes widths of at most 32 and cells within the line height,   *)
(* Blitstr that the replacement character is Latin and nothing starts with *)
(* a newline, MCBlitstr's Disjoint that a line is as high as its glyphs.)  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLE item
Font == JsonDeserialize(IOEnv.FONT)
Sets == {"Emoji", "Hanzi", "Small", "Regular", "Bold"}
Latin == {"Small", "Regular", "Bold"}
NL == 10
Unknown == 65533

Init == \E s \in Sets : \/ \E k \in DOMAIN Font[s].glyphs : item = <<"glyph", s, k>>
                        \/ \E k \in DOMAIN Font[s].index : item = <<"cluster", s, k>>
Spec == Init /\ [][FALSE]_item

IsGlyph == item[1] = "glyph"
IsCluster == item[1] = "cluster"
S == item[2]
Gl == Font[S].glyphs[item[3]]         \* <<w, h, yo, rows of runs>>
Cl == Font[S].index[item[3]]          \* <<cluster, glyph number>>
(* evaluated once *)
AllClusters == [s \in Sets |-> {Font[s].index[k][1] : k \in DOMAIN Font[s].index}]
Space == [s \in Latin |-> {Font[s].index[k][2] + 1 : k \in {k \in DOMAIN Font[s].index : Font[s].index[k][1] \in {<<32>>, <<160>>}}}]

Bounded == IsGlyph => Gl[1] \in 0..32 /\ Gl[2] \in 0..32 /\ Gl[3] \in 0..31 /\ Gl[2] + Gl[3] <= Font[S].maxh
NoneOrAll == IsGlyph => (Gl[1] = 0 <=> Gl[2] = 0) /\ Len(Gl[4]) = Gl[2]
InCell == IsGlyph => \A y \in DOMAIN Gl[4] : \A r \in DOMAIN Gl[4][y] :
    LET run == Gl[4][y][r] IN
    /\ run[1] >= 0 /\ run[1] <= run[2] /\ run[2] < Gl[1]
    /\ r > 1 => run[1] > Gl[4][y][r - 1][2] + 1
(* margins are trimmed, except around ideographs, emoji and spaces *)
Tight == IsGlyph /\ S \in Latin /\ Gl[1] > 0 /\ item[3] \notin Space[S] =>
    /\ Gl[4][1] /= <<>> /\ Gl[4][Gl[2]] /= <<>>
    /\ \E y \in DOMAIN Gl[4] : Gl[4][y] /= <<>> /\ Gl[4][y][1][1] = 0
    /\ \E y \in DOMAIN Gl[4] : Gl[4][y] /= <<>> /\ Gl[4][y][Len(Gl[4][y])][2] = Gl[1] - 1
WholeCells == IsGlyph /\ S = "Hanzi" => Gl[1] = 32 /\ Gl[2] = 32 /\ Gl[3] = 0
Clusters == IsCluster =>
    /\ Len(Cl[1]) \in 1..10
    /\ \A k \in DOMAIN Cl[1] : Cl[1][k] \in 0..1114111 /\ ~(Cl[1][k] \in 55296..57343) /\ Cl[1][k] /= NL
    /\ Cl[2] + 1 \in DOMAIN Font[S].glyphs
Once == IsCluster /\ item[3] = 1
NoDuplicates == Once => \A s \in Sets : Cardinality(AllClusters[s]) = Len(Font[s].index)
ReplacementIsLatin == Once => \A s \in Sets : (<<Unknown>> \in AllClusters[s]) <=> s \in Latin
LatinAlike == Once => \A s \in Latin : AllClusters[s] = AllClusters["Regular"]
LowestIsSmall == Once => \A s \in Sets : Font["Small"].maxh <= Font[s].maxh
(* a glyph that is inked at all has room in a line of the screen *)
FitsScreen == IsGlyph => Gl[1] + 3 < 336
=============================================================================

------------------------------- MODULE Lookup -------------------------------
(***************************************************************************)
(* How a glyph set's index is built by the generator and searched by the   *)
(* library, and what that is supposed to mean.                             *)
(*                                                                         *)
(* Building: every listed cluster goes into the table of the Unicode block *)
(* of its first codepoint as a pair (hash, glyph); then every alias, with  *)
(* the glyph its canonical cluster is found to have, into the table of the *)
(* block of the ALIAS's first codepoint; tables are kept sorted by hash.   *)
(* Searching: for each cluster length that occurs in the block, longest    *)
(* first, hash that many codepoints (or all that are left) and search the  *)
(* table by bisection.                                                     *)
(* Meaning: the longest listed cluster or alias that the string starts     *)
(* with.  The two agree exactly when the hash separates the clusters from  *)
(* everything they are compared with: Fault = "collide" shows the recorded *)
(* finding; the other faults are easy slips.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cps, MaxC, MaxS, MaxListed, Fault

VARIABLES listed, aliases, tables, str, got
lv == <<listed, aliases, tables, str, got>>

Clusters == UNION {[1..k -> Cps] : k \in 1..MaxC}
Strings == UNION {[1..k -> Cps] : k \in 1..MaxS}
Block(cp) == cp % 2
Blocks == {Block(c) : c \in Cps}

Number(c) == LET f[k \in 0..Len(c)] == IF k = 0 THEN 0 ELSE f[k - 1] * (Cardinality(Cps) + 1) + c[k] IN f[Len(c)]
Hash(c) == IF Fault = "collide" THEN (Number(c) * 7 + 3) % 11 ELSE (Number(c) * 557 + 3) % 1009

(* tables *)
RECURSIVE InsertSorted(_, _)
InsertSorted(t, e) == IF t = <<>> THEN <<e>>
                      ELSE IF e.hash < t[1].hash THEN <<e>> \o t
                      ELSE <<t[1]>> \o InsertSorted(Tail(t), e)
Insert(ts, b, c, g) ==
    LET e == [hash |-> Hash(c), len |-> Len(c), g |-> g] IN
    [ts EXCEPT ![b] = IF Fault = "unsorted" THEN Append(@, e) ELSE InsertSorted(@, e)]
RECURSIVE Bisect(_, _, _, _)
Bisect(t, h, lo, hi) ==      \* position of h in t[lo..hi-1], or 0
    IF lo >= hi THEN 0
    ELSE LET m == (lo + hi) \div 2 IN
         IF t[m].hash = h THEN m
         ELSE IF t[m].hash < h THEN Bisect(t, h, m + 1, hi) ELSE Bisect(t, h, lo, m)
Find(t, c) == Bisect(t, Hash(c), 1, Len(t) + 1)

RECURSIVE Build(_, _, _)
Build(cs, k, ts) == IF k > Len(cs) THEN ts ELSE Build(cs, k + 1, Insert(ts, Block(cs[k][1]), cs[k], k))
RECURSIVE AddAliases(_, _, _, _)
AddAliases(cs, as, k, ts) ==
    IF k > Len(as) THEN ts
    ELSE LET canon == cs[as[k].of]
             t == ts[Block(canon[1])]
             p == Find(t, canon)
             g == IF p = 0 THEN 0 ELSE t[p].g
             b == IF Fault = "aliasblock" THEN Block(canon[1]) ELSE Block(as[k].c[1])
         IN  AddAliases(cs, as, k + 1, Insert(ts, b, as[k].c, g))
Empty == [b \in Blocks |-> <<>>]
Tables(cs, as) == AddAliases(cs, as, 1, Build(cs, 1, Empty))

(* searching *)
Lengths(t) == {t[k].len : k \in DOMAIN t}
Prefix(s, n) == SubSeq(s, 1, IF n > Len(s) THEN Len(s) ELSE n)
RECURSIVE Try(_, _, _)
Try(t, s, ls) ==
    IF ls = {} THEN [g |-> 0, n |-> 0]
    ELSE LET n == IF Fault = "shortest" THEN CHOOSE n \in ls : \A k \in ls : n <= k
                  ELSE CHOOSE n \in ls : \A k \in ls : k <= n
             p == Find(t, Prefix(s, n))
         IN  IF p # 0 THEN [g |-> t[p].g, n |-> IF Fault = "limit" THEN n ELSE Len(Prefix(s, n))]
             ELSE Try(t, s, ls \ {n})
Search(ts, s) == LET t == ts[Block(s[1])] IN Try(t, s, Lengths(t))

(* meaning *)
All == {[c |-> listed[k], g |-> k] : k \in DOMAIN listed} \cup {[c |-> aliases[k].c, g |-> aliases[k].of] : k \in DOMAIN aliases}
Starting(s) == {e \in All : Len(e.c) <= Len(s) /\ \A k \in DOMAIN e.c : e.c[k] = s[k]}
Meaning(s) == IF Starting(s) = {} THEN [g |-> 0, n |-> 0]
              ELSE LET e == CHOOSE e \in Starting(s) : \A d \in Starting(s) : Len(d.c) <= Len(e.c)
                   IN  [g |-> e.g, n |-> Len(e.c)]

---------------------------------------------------------------------------
NoneYet == [g |-> 0, n |-> 0]
Init == /\ \E c \in Clusters : listed = <<c>>
        /\ aliases = <<>> /\ tables = Empty /\ str = <<>> /\ got = NoneYet
Used == {listed[k] : k \in DOMAIN listed} \cup {aliases[k].c : k \in DOMAIN aliases}
List == /\ tables = Empty /\ aliases = <<>> /\ Len(listed) < MaxListed
        /\ \E c \in Clusters \ Used : listed' = Append(listed, c)
        /\ UNCHANGED <<aliases, tables, str, got>>
Alias == /\ tables = Empty /\ Len(aliases) < 1
         /\ \E c \in Clusters \ Used, k \in DOMAIN listed : aliases' = Append(aliases, [c |-> c, of |-> k])
         /\ UNCHANGED <<listed, tables, str, got>>
Generate == /\ tables = Empty /\ tables' = Tables(listed, aliases) /\ UNCHANGED <<listed, aliases, str, got>>
Query == /\ tables /= Empty /\ str = <<>>
         /\ \E s \in Strings : str' = s /\ got' = Search(tables, s)
         /\ UNCHANGED <<listed, aliases, tables>>
Next == List \/ Alias \/ Generate \/ Query
Spec == Init /\ [][Next]_lv

FindsWhatIsMeant == str /= <<>> => got = Meaning(str)
Sorted == \A b \in Blocks : \A k \in 1 .. Len(tables[b]) - 1 : tables[b][k].hash < tables[b][k + 1].hash
=============================================================================

------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Calls on separate frame buffers, interleaved at the level of single     *)
(* memory accesses: a painter looks a glyph up, unpacks it into a local,   *)
(* and for each of its words loads a word of its own buffer, and stores it *)
(* inverted.  Nothing is shared but constant tables.                       *)
(*                                                                         *)
(* Each thread runs a fixed script of calls; the meaning is what the       *)
(* script does when nobody else runs.  Faults share something: "scratch" a *)
(* buffer for the unpacked glyph, "cursor" a cached line height, "memo" a  *)
(* last-lookup cache whose key and value are stored separately, "counter"  *)
(* a call counter that changes a call's behaviour (that one is wrong even  *)
(* in a single thread).                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Scripts, Fault      \* Scripts: thread -> sequence of glyph numbers

VARIABLES pc, k, w, reg, buf, x, shared
tv == <<pc, k, w, reg, buf, x, shared>>

Threads == DOMAIN Scripts
Words == 0..1
Glyph(g) == [j \in Words |-> (g * (j + 3)) % 8]    \* the unpacked glyph: two words of 3 bits
Bit(a, b) == (a \div 2^b) % 2
Xor(a, b) == LET f[c \in 0..3] == IF c = 3 THEN 0 ELSE ((Bit(a, c) + Bit(b, c)) % 2) * 2^c + f[c + 1] IN f[0]
Width(g) == (g % 3) + 1

Init == /\ pc = [t \in Threads |-> "call"] /\ k = [t \in Threads |-> 1]
        /\ w = [t \in Threads |-> 0]
        /\ reg = [t \in Threads |-> [pat |-> [j \in Words |-> 0], v |-> 0, g |-> 0]]
        /\ buf = [t \in Threads |-> [j \in Words |-> 0]]
        /\ x = [t \in Threads |-> 0]
        /\ shared = [pat |-> [j \in Words |-> 0], x |-> 0, key |-> 0, val |-> 0, calls |-> 0]

G(t) == Scripts[t][k[t]]
Call(t) ==
    /\ pc[t] = "call" /\ k[t] <= Len(Scripts[t])
    /\ pc' = [pc EXCEPT ![t] = "lookup"]
    /\ shared' = [shared EXCEPT !.calls = @ + 1]
    /\ UNCHANGED <<k, w, reg, buf, x>>
(* find the glyph; with "memo", through a cache written in two steps *)
Lookup(t) ==
    /\ pc[t] = "lookup"
    /\ IF Fault = "memo" /\ shared.key = G(t)
       THEN reg' = [reg EXCEPT ![t].g = shared.val] /\ pc' = [pc EXCEPT ![t] = "unpack"] /\ UNCHANGED shared
       ELSE /\ reg' = [reg EXCEPT ![t].g = G(t)]
            /\ IF Fault = "memo" THEN pc' = [pc EXCEPT ![t] = "fill"] /\ shared' = [shared EXCEPT !.key = G(t)]
               ELSE pc' = [pc EXCEPT ![t] = "unpack"] /\ UNCHANGED shared
    /\ UNCHANGED <<k, w, buf, x>>
Fill(t) == /\ pc[t] = "fill" /\ shared' = [shared EXCEPT !.val = G(t)]
           /\ pc' = [pc EXCEPT ![t] = "unpack"] /\ UNCHANGED <<k, w, reg, buf, x>>
Unpack(t) ==
    /\ pc[t] = "unpack"
    /\ LET p == IF Fault = "counter" /\ shared.calls > 3 THEN [j \in Words |-> 7] ELSE Glyph(reg[t].g) IN
       IF Fault = "scratch" THEN shared' = [shared EXCEPT !.pat = p] /\ UNCHANGED reg
       ELSE reg' = [reg EXCEPT ![t].pat = p] /\ UNCHANGED shared
    /\ w' = [w EXCEPT ![t] = 0]
    /\ pc' = [pc EXCEPT ![t] = "load"] /\ UNCHANGED <<k, buf, x>>
Load(t) == /\ pc[t] = "load"
           /\ reg' = [reg EXCEPT ![t].v = buf[t][w[t]]]
           /\ pc' = [pc EXCEPT ![t] = "store"] /\ UNCHANGED <<k, w, buf, x, shared>>
Store(t) ==
    /\ pc[t] = "store"
    /\ LET p == IF Fault = "scratch" THEN shared.pat ELSE reg[t].pat IN
       buf' = [buf EXCEPT ![t][w[t]] = Xor(reg[t].v, p[w[t]])]
    /\ IF w[t] = 1 THEN pc' = [pc EXCEPT ![t] = "advance"] /\ UNCHANGED w
       ELSE pc' = [pc EXCEPT ![t] = "load"] /\ w' = [w EXCEPT ![t] = @ + 1]
    /\ UNCHANGED <<k, reg, x, shared>>
Advance(t) ==
    /\ pc[t] = "advance"
    /\ IF Fault = "cursor"
       THEN /\ shared' = [shared EXCEPT !.x = (@ + Width(reg[t].g)) % 16]
            /\ x' = [x EXCEPT ![t] = (shared.x + Width(reg[t].g)) % 16]
       ELSE /\ x' = [x EXCEPT ![t] = @ + Width(reg[t].g)] /\ UNCHANGED shared
    /\ k' = [k EXCEPT ![t] = @ + 1]
    /\ pc' = [pc EXCEPT ![t] = "call"] /\ UNCHANGED <<w, reg, buf>>
Next == \E t \in Threads : Call(t) \/ Lookup(t) \/ Fill(t) \/ Unpack(t) \/ Load(t) \/ Store(t) \/ Advance(t)
Spec == Init /\ [][Next]_tv

(* running alone *)
RECURSIVE Alone(_, _, _)
Alone(s, n, r) ==
    IF n = 0 THEN r
    ELSE LET b == Alone(s, n - 1, r) IN
         [buf |-> [j \in Words |-> Xor(b.buf[j], Glyph(s[n])[j])], x |-> b.x + Width(s[n])]
Nothing == [buf |-> [j \in Words |-> 0], x |-> 0]
(* after each finished call, buffer and cursor are what the call sequence
   makes of them alone *)
AsIfAlone == \A t \in Threads : pc[t] = "call" =>
    LET a == Alone(Scripts[t], k[t] - 1, Nothing) IN buf[t] = a.buf /\ x[t] = a.x
ThreeThreads == <<<<1, 2, 1>>, <<2, 5>>, <<3>>>>
TwoThreads == <<<<1, 2, 1>>, <<2, 5>>>>
=============================================================================

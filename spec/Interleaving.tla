---------------------------- MODULE Interleaving ----------------------------
(***************************************************************************)
(* Any number of threads, any number of steps, any interleaving: if the    *)
(* state of a call (frame buffer, cursor, locals) is written by its own    *)
(* thread only and a step depends on nothing else but constant tables,     *)
(* every thread is at each moment exactly where it would be alone.         *)
(* (Threads is the finite model of the painter's own steps, with the       *)
(* slips that break this; the traces of C21 bind it to the code.)          *)
(***************************************************************************)
EXTENDS Naturals, TLAPS

CONSTANTS T, Start(_), Step(_, _),     \* Step(t, l): the next local state
          Alone                         \* Alone[t][n]: after n steps of t by itself
ASSUME AloneIs == \A t \in T : Alone[t][0] = Start(t) /\ \A n \in Nat : Alone[t][n + 1] = Step(t, Alone[t][n])

VARIABLES l, n
Init == l = [t \in T |-> Start(t)] /\ n = [t \in T |-> 0]
Move(t) == /\ l' = [l EXCEPT ![t] = Step(t, @)]
           /\ n' = [n EXCEPT ![t] = @ + 1]
Next == \E t \in T : Move(t)
Spec == Init /\ [][Next]_<<l, n>>

AsIfAlone == \A t \in T : l[t] = Alone[t][n[t]]
Inv == l = [t \in T |-> l[t]] /\ n \in [T -> Nat] /\ AsIfAlone

THEOREM Isolated == Spec => []AsIfAlone
  <1>1. Init => Inv BY AloneIs DEF Init, Inv, AsIfAlone
  <1>2. Inv /\ [Next]_<<l, n>> => Inv'
    <2>. SUFFICES ASSUME Inv, [Next]_<<l, n>> PROVE Inv'
      OBVIOUS
    <2>1. CASE UNCHANGED <<l, n>> BY <2>1 DEF Inv, AsIfAlone
    <2>2. ASSUME NEW t \in T, Move(t) PROVE Inv'
      <3>1. n' \in [T -> Nat] BY <2>2 DEF Inv, Move
      <3>2. l' = [u \in T |-> l'[u]] BY <2>2 DEF Inv, Move
      <3>3. ASSUME NEW u \in T PROVE l'[u] = Alone[u][n'[u]]
        <4>1. CASE u = t
          <5>1. l'[t] = Step(t, l[t]) /\ n'[t] = n[t] + 1 BY <2>2 DEF Inv, Move
          <5>2. n[t] \in Nat /\ l[t] = Alone[t][n[t]] BY DEF Inv, AsIfAlone
          <5>. QED BY <4>1, <5>1, <5>2, AloneIs
        <4>2. CASE u # t
          <5>1. l'[u] = l[u] /\ n'[u] = n[u] BY <2>2, <4>2 DEF Inv, Move
          <5>. QED BY <5>1 DEF Inv, AsIfAlone
        <4>. QED BY <4>1, <4>2
      <3>. QED BY <3>1, <3>2, <3>3 DEF Inv, AsIfAlone
    <2>. QED BY <2>1, <2>2 DEF Next
  <1>. QED BY <1>1, <1>2, PTL DEF Spec, Inv
=============================================================================

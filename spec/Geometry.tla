------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Rectangles and cursors.  The trace specification compares machine       *)
(* integers as three limbs; this module checks, for limbs of base B, that  *)
(* the limb order is the integer order and that the limb rectangle is the  *)
(* normalised rectangle, and states what normalising means.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS B, Fault
VARIABLES a, got
gv == <<a, got>>

Limbs(v) == <<v \div (B * B), (v \div B) % B, v % B>>
Leq3(p, q) == \/ p[1] < q[1]
              \/ p[1] = q[1] /\ (p[2] < q[2] \/ (p[2] = q[2] /\ p[3] <= q[3]))
Min3(p, q) == IF Leq3(p, q) THEN p ELSE q
Max3(p, q) == IF Leq3(p, q) THEN q ELSE p
Rect3(r) == <<Min3(r[1], r[3]), Min3(r[2], r[4]),
              IF Fault = "yonly" THEN r[3] ELSE Max3(r[1], r[3]), Max3(r[2], r[4])>>

(* swapping both axes together, decided on x alone: the slip to fear *)
Swapped(r) == IF Leq3(r[1], r[3]) THEN r ELSE <<r[3], r[4], r[1], r[2]>>
Made(r) == IF Fault = "together" THEN Swapped(r) ELSE Rect3(r)

Values == 0 .. B * B * B - 1
Init == a = <<>> /\ got = <<>>
Next == /\ a = <<>>
        /\ \E x1, y1, x2, y2 \in Values :
             /\ a' = <<x1, y1, x2, y2>>
             /\ got' = Made(<<Limbs(x1), Limbs(y1), Limbs(x2), Limbs(y2)>>)
Spec == Init /\ [][Next]_gv

Mn(p, q) == IF p <= q THEN p ELSE q
Mx(p, q) == IF p <= q THEN q ELSE p
Normalised == a /= <<>> => got = <<Limbs(Mn(a[1], a[3])), Limbs(Mn(a[2], a[4])), Limbs(Mx(a[1], a[3])), Limbs(Mx(a[2], a[4]))>>
(* whatever corners are named, and in whatever order *)
OrderFree == a /= <<>> =>
    LET L(p) == <<Limbs(p[1]), Limbs(p[2]), Limbs(p[3]), Limbs(p[4])>> IN
    /\ Made(L(<<a[3], a[4], a[1], a[2]>>)) = got
    /\ Made(L(<<a[1], a[4], a[3], a[2]>>)) = got
    /\ Made(got) = got
LimbOrder == a /= <<>> => (Leq3(Limbs(a[1]), Limbs(a[2])) <=> a[1] <= a[2])
LimbsDiffer == a /= <<>> => (Limbs(a[1]) = Limbs(a[2]) <=> a[1] = a[2])
=============================================================================

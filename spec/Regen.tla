------------------------------- MODULE Regen -------------------------------
(***************************************************************************)
(* A confirmed run of the font generator over N glyph sets whose inputs    *)
(* may have flaws: the configuration is read, the lists of every set are   *)
(* read, and each set's sheet is read, packed and written.  (Sets may be   *)
(* written as they are packed, or all at the end.)                         *)
(*                                                                         *)
(* Fault is a slip: "swallow" goes on after a failed write, "quiet" ends a *)
(* failed run as if it had succeeded, "skip" leaves a flawed set out and   *)
(* goes on, "early" opens the font file before all of its input is known   *)
(* to be good, "guess" goes on with what it could read, "default" runs     *)
(* with no sets when the configuration is unreadable, "retry" starts a     *)
(* failed set again for ever.                                              *)
(***************************************************************************)
EXTENDS Outcome, FiniteSets, FiniteSetsExt
CONSTANTS N, MaxFlaws, Fault

VARIABLES flaws, pc, read, packed, out, exit
rv == <<flaws, pc, read, packed, out, exit>>
S == 1..N

AllFlaws == ({0} \X ConfigKinds) \cup (S \X Kinds)
ListKinds == {"index", "legal", "aliases", "type"}
Init == /\ flaws \in UNION {kSubset(k, AllFlaws) : k \in 0..MaxFlaws}
        /\ pc = "config" /\ read = {} /\ packed = {}
        /\ out = [s \in S |-> "old"] /\ exit = "running"

Has(s, ks) == FlawsOf(flaws, s) \cap ks /= {}
End(e) == exit' = (IF Fault = "quiet" THEN "ok" ELSE e) /\ pc' = "end" /\ UNCHANGED <<flaws, read, packed, out>>

Config ==
    /\ pc = "config"
    /\ IF Has(0, ConfigKinds)
       THEN IF Fault = "default" THEN exit' = "ok" /\ pc' = "end" /\ UNCHANGED <<flaws, read, packed, out>> ELSE End("failed")
       ELSE pc' = "lists" /\ UNCHANGED <<flaws, read, packed, out, exit>>

(* the lists of one more set *)
ReadLists ==
    /\ pc = "lists" /\ read /= S
    /\ LET s == CHOOSE t \in S \ read : \A u \in S \ read : t <= u IN
       IF Has(s, ListKinds) /\ Fault \notin {"skip", "guess"} THEN End("failed")
       ELSE /\ read' = read \cup {s}
            /\ packed' = IF Has(s, ListKinds) /\ Fault = "skip" THEN packed \cup {s} ELSE packed
            /\ UNCHANGED <<flaws, pc, out, exit>>
ListsRead == pc = "lists" /\ read = S /\ pc' = "sets" /\ UNCHANGED <<flaws, read, packed, out, exit>>

(* one more set is packed; out of order or not, and written now or later *)
Pack(s) ==
    /\ pc = "sets" /\ s \in S \ packed
    /\ IF Has(s, ReadKinds) /\ Fault /= "guess"
       THEN IF Fault = "early" THEN /\ out' = [out EXCEPT ![s] = "cut"] /\ exit' = "failed" /\ pc' = "end" /\ UNCHANGED <<flaws, read, packed>>
            ELSE IF Fault = "skip" THEN packed' = packed \cup {s} /\ UNCHANGED <<flaws, pc, read, out, exit>>
            ELSE IF Fault = "retry" THEN UNCHANGED rv
            ELSE End("failed")
       ELSE packed' = packed \cup {s} /\ UNCHANGED <<flaws, pc, read, out, exit>>
Skipped(s) == Fault = "skip" /\ Has(s, ReadKinds)
Write(s) ==
    /\ pc = "sets" /\ s \in packed /\ out[s] = "old" /\ ~Skipped(s)
    /\ IF Has(s, {"write"})
       THEN IF Fault = "swallow" THEN out' = [out EXCEPT ![s] = "lost"] /\ UNCHANGED <<flaws, pc, read, packed, exit>>
            ELSE End("failed")
       ELSE IF Has(s, {"full"})
       THEN /\ out' = [out EXCEPT ![s] = "cut"]
            /\ IF Fault = "swallow" THEN UNCHANGED <<pc, exit>> ELSE pc' = "end" /\ exit' = (IF Fault = "quiet" THEN "ok" ELSE "failed")
            /\ UNCHANGED <<flaws, read, packed>>
       ELSE out' = [out EXCEPT ![s] = "new"] /\ UNCHANGED <<flaws, pc, read, packed, exit>>
Finish == /\ pc = "sets" /\ packed = S /\ \A s \in S : out[s] /= "old" \/ Skipped(s)
          /\ exit' = "ok" /\ pc' = "end" /\ UNCHANGED <<flaws, read, packed, out>>

Next == Config \/ ReadLists \/ ListsRead \/ (\E s \in S : Pack(s) \/ Write(s)) \/ Finish
Spec == Init /\ [][Next]_rv /\ WF_rv(Next)

Faithful == exit /= "running" => RightOutcome(flaws, exit, out)
NeverHalf == \A s \in S : out[s] = "cut" => Has(s, {"full"})
Ends == <>(exit /= "running")
=============================================================================

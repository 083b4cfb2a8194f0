------------------------------ MODULE Outcome ------------------------------
(***************************************************************************)
(* What a run of the font generator may end with.  flaws is a set of pairs *)
(* <<set, kind>>: what is wrong with the input of a glyph set (numbered    *)
(* from 1; set 0 is the configuration itself); out says for every set what *)
(* its font file now is: "old" untouched, "new" the complete font, "cut"   *)
(* anything else.  Shared by the model (Regen) and the conformance check   *)
(* (Trace).                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

ConfigKinds == {"config"}
(* input that is missing or makes no sense, found before a set is written *)
ReadKinds == {"sheet", "index", "legal", "aliases", "type", "hex", "cell", "alias"}
(* the font file cannot be opened, or not be written to its end *)
WriteKinds == {"write", "full"}
Kinds == ReadKinds \cup WriteKinds

FlawsOf(flaws, s) == {f[2] : f \in {g \in flaws : g[1] = s}}
RightOutcome(flaws, exit, out) ==
    IF flaws = {} THEN exit = "ok" /\ \A s \in DOMAIN out : out[s] = "new"
    ELSE /\ exit = "failed"
         /\ \A s \in DOMAIN out :
              LET fs == FlawsOf(flaws, s) IN
              IF FlawsOf(flaws, 0) /= {} THEN out[s] = "old"
              ELSE IF fs = {} THEN out[s] \in {"old", "new"}
              ELSE IF fs \cap (ReadKinds \cup {"write"}) /= {} THEN out[s] = "old"
              ELSE TRUE          \* the disk was full
=============================================================================

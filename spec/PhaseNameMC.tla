---------------------------- MODULE PhaseNameMC ------------------------------
(* Every name over an alphabet, up to a length. *)
EXTENDS PhaseName, TLC
CONSTANTS Alphabet, MaxLen
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {""}
            ELSE LET w == Words(n - 1) IN
                 w \cup {x \o c : x \in {y \in w : Len(y) = n - 1},
                                  c \in Alphabet}
Init == \E n \in Words(MaxLen) \cup {x \o "kmps" : x \in Words(1)} :
            StartReading(n)
Spec == Init /\ [][ReadLeg]_nameVars /\ WF_nameVars(ReadLeg)
Terminates == <>Done
=============================================================================
